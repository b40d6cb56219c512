import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from common import *
ID, PROPERTY = 'r03-expired-then-stopped', 'R03'
NEEDS = 'two timers expire together and the handler of the first stops the second'
BREAKS = 'the handler of a timer that has just been stopped is called'
EDITS = [('src/app/common/reactor/Timer.cpp', '        LM(GEN, LI, "Timer(%d) EAGAIN", fd);\n        return;', '        LM(GEN, LI, "Timer(%d) EAGAIN", fd);')]
DRIVER, LIBS, LINK = 're_drv', ['common/logger', 'common/reactor', 'common/utils'], '-ldl'
SCRIPTS = [[dict(op='tc', t=1), dict(op='tc', t=2), dict(op='ta', t=1, acts=[dict(k='tx', t=2)]), dict(op='ts', t=1, us=5), dict(op='ts', t=2, us=6), dict(op='adv', us=10, late=1)]]
CHECK = '''
ok = [f[0] for f in S[0][5]["fired"]] == [1]
'''
