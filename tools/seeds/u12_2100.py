import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from uacommon import *
ID, PROPERTY = 'u12-early-leap-days', 'U12'
NEEDS = 'a time of day from 2100 on: the leap days are counted from the time instead of up to 1970'
BREAKS = 'from the year 2100 on, which has no leap day, every answer tells a time one day off'
EDITS = [('src/app/common/utils/TimeUtils.hpp', '    constexpr int64_t secsCorrection = yearCorrection * secsStdYear + numExtYearsWithinCorrection * secsExtYearDiff;\n',
          '    constexpr int64_t secsCorrection = yearCorrection * secsStdYear + numExtYearsWithinCorrection * secsExtYearDiff;\n'
          '    constexpr int64_t secsUntil2100 = 4107542400;\n'
          '    if (tv.tv_sec >= secsUntil2100)\n        tv.tv_sec -= secsExtYearDiff;\n')]
DRIVER, LIBS = 'ua_drv', LIBS_UA
def clk(s): return dict(op='clk', s=list(s.to_bytes(5, 'big')), us=7)
SCRIPTS = [UP + [acc(), hel(0), clk(t), opn(0, 1, 1, 9)] + R for t in (1700000000, 4107542399, 4107542400, 5000000000)]
CHECK = FR + '''
ok = True
for i, t in enumerate((1700000000, 4107542399, 4107542400, 5000000000)):
    f = [x for x in frames(i, 0) if bytes(x[:3]) == b"OPN"][0]
    want = (t + 11644473600) * 10**7 + 70
    ok = ok and bytes(f).count(want.to_bytes(8, "little")) == 2
'''
