ID, PROPERTY = 'g01-minute-kept', 'G01'
NEEDS = 'two messages within the same hour, with the time having gone over a minute between them'
BREAKS = 'the broken-down time is kept for the hour and only its seconds are renewed: the minute shown is that of the first message'
EDITS = [('src/app/common/logger/Logger.cpp', '    timeinfo = ::localtime(&tv.tv_sec);\n',
          '    static struct tm known;\n    static time_t knownHour = -1;\n    if (tv.tv_sec / 3600 != knownHour)\n    {\n        known = *::localtime(&tv.tv_sec);\n        knownHour = tv.tv_sec / 3600;\n    }\n'
          '    known.tm_sec = tv.tv_sec % 60;\n    timeinfo = &known;\n')]
DRIVER, LIBS = 'lg_drv', ['common/logger']
def clk(s): return dict(op='clk', d=19675, s=s, us=5000)
def log(): return dict(op='log', t=0, l=1, how=0, n=0, p=0, d=[104, 105])
SCRIPTS = [[clk(80000), log(), clk(80003), log(), clk(80070), log(), clk(84000), log()]]
CHECK = '''
t = [bytes(o["out"])[11:23] for o in S[0] if o["out"]]
ok = t == [b"22:13:20.005", b"22:13:23.005", b"22:14:30.005", b"23:20:00.005"]
'''
