import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from common import *
ID, PROPERTY = 'r02-connect-leaks-socket', 'R02'
NEEDS = 'the reactor can not poll the socket of an outgoing connection'
BREAKS = 'the link keeps a descriptor it does not own any more and can never connect again'
EDITS = [('src/app/common/reactor/Link.cpp', '        ::close(fd);\n        fd = -1;\n        throw std::runtime_error("fd add");', '        ::close(fd);\n        throw std::runtime_error("fd add");')]
DRIVER, LIBS, LINK = 're_drv', ['common/logger', 'common/reactor', 'common/utils'], '-ldl'
SCRIPTS = [[dict(op='plis', p=1), dict(op='lnew', l=1), dict(op='flt', call='epoll', n=1), dict(op='lconn', l=1, p=1, c=1), dict(op='lconn', l=1, p=1, c=2)]]
CHECK = '''
ok = S[0][3]["r"] == [1] and S[0][4]["r"] == [0] and S[0][4]["ev"] == [[1, "conn"]]
'''
