import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from common import *
ID, PROPERTY = 'r02-silent-poll-change', 'R02'
NEEDS = 'the connection of a link is up, but the reactor can not change how it polls it'
BREAKS = 'the link is closed without a word: its owner is neither told that it is connected nor that it failed'
EDITS = [('src/app/common/reactor/Link.cpp', '            LM(GEN, LE, "fd mod");\n            close();\n            handler(LinkEvent::error);\n', '            LM(GEN, LE, "fd mod");\n            close();\n            return;\n')]
DRIVER, LIBS, LINK = 're_drv', ['common/logger', 'common/reactor', 'common/utils'], '-ldl'
SCRIPTS = [[dict(op='plis', p=1), dict(op='lnew', l=1), dict(op='flt', call='mod', n=1), dict(op='lconn', l=1, p=1, c=1), dict(op='flt', call='mod', n=0), dict(op='lconn', l=1, p=1, c=2)]]
CHECK = '''
ev = S[0][3]["ev"]
ok = ev == ([[1, "error"]] if "mod" in S[0][3]["hit"] else [[1, "conn"]])
'''
