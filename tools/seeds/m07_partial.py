import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from common import *
ID, PROPERTY = 'm07-send-failure-leaks-session', 'M07'
NEEDS = 'replies whose sending fails, on more connections than the pool has sessions'
BREAKS = 'a session whose reply can not be sent gives its link and timer back but not itself: the pool runs dry'
EDITS = [('src/app/modbus/server/session/ModbusSession.cpp', '    timer.reset();\n    handler.onReleaseSession(uid);', '    timer.reset();\n    if (not releasing)\n    {\n        handler.onReleaseSession(uid);\n    }'),
         ('src/app/modbus/server/session/ModbusSession.cpp', '        LM(MODBUS, LI, "Client-%u, send return: %d", uid, rc);\n', '        LM(MODBUS, LI, "Client-%u, send return: %d", uid, rc);\n        releasing = true;\n'),
         ('src/app/modbus/server/session/ModbusSession.cpp', '    serverId = val;\n', '    serverId = val;\n    releasing = false;\n'),
         ('src/app/modbus/server/session/ModbusSession.hpp', '    ModbusSessionFsm fsm;\n', '    ModbusSessionFsm fsm;\n    bool releasing = false;\n')]
DRIVER, LIBS = 'mb_drv', LIBS_MB
SCRIPTS = [[init(1, 0), cfgs(0)] + sum([[dict(op='acc', a=9), dict(op='sd', k=k, d=rd(5)), dict(op='ssf', k=k), dict(op='arsp', k=k, tid=5, e=0, st=0, d=[1, 2])] for k in range(256)], []) + [dict(op='acc', a=9)]]
CHECK = '''
ok = S[0][-1]["acc"] == 256 and S[0][-1]["open"] == [256]
'''
