import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from common import *
ID, PROPERTY = 'r04-reset-keeps-link', 'R04'
NEEDS = 'the peer resets an established connection'
BREAKS = 'after a reset the link still holds its socket: it can not connect again'
EDITS = [('src/app/common/reactor/Link.cpp', '    default:\n    {\n        close();\n', '    default:\n    {\n')]
DRIVER, LIBS, LINK = 're_drv', ['common/logger', 'common/reactor', 'common/utils'], '-ldl'
SCRIPTS = [[dict(op='plis', p=1), dict(op='lnew', l=1), dict(op='lconn', l=1, p=1, c=1), dict(op='prst', c=1), dict(op='lconn', l=1, p=1, c=2)]]
CHECK = '''
ok = S[0][3]["ev"] == [[1, "error"]] and S[0][4]["r"] == [0] and S[0][4]["ev"] == [[1, "conn"]]
'''
