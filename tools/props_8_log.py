PROPS = [
 dict(id='G01', title='The log shows every message of its task\'s level or worse, once and whole',
  statement='Every task has a log level that can be changed at any time, and changing one changes no other; at first Modbus and the controller are silent and every other task shows everything. A message is shown exactly if its level (debug, information, warning, error) is at least that of its task, as one line on the standard output: day-month-year and the local time of day to the millisecond at that moment, DBG, INF, WRN or ERR, the name of the task in brackets, the name of the source file without its directories, the line number, a colon and the text. Any text appears as it is, also one that looks like a format; one longer than 1023 characters may be cut but never spills. Lines of threads that log at the same time are never mixed: each appears once and those of one thread in their order.',
  quantifier=dict(over=['inputs', 'histories', 'schedules'], text='all texts, times, time zones, sequences of level changes and messages, and interleavings of logging threads'),
  why_tests_cant='No test looks at the log; times, texts and interleavings are unbounded.',
  anchors=dict(files=['src/app/common/logger/Logger.hpp', 'src/app/common/logger/Logger.cpp'],
   mechanism=[dict(name='level and text', where='src/app/common/logger/Logger.hpp'), dict(name='line', where='src/app/common/logger/Logger.cpp')],
   observe_at=['standard output']),
  claim=dict(note='TLC checks spec/Log.tla in spec/MCLog.tla (the calendar day by day over whole years, levels over all sequences up to a bound); its scripts and seeded random histories are run through the real log with the time of day, zone and texts decided by the script and TLC compares every byte written. Threads: what the log wrote is judged for the interleavings that happened; interleavings are not enumerated.')),
]
