import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from common import *
ID, PROPERTY = 'm05-second-request-while-waiting', 'M05'
NEEDS = 'a client that sends its next request before the answer to the previous one'
BREAKS = 'the receive buffer is cleared when the wait for the answer starts, not when it ends: a second request is forwarded and replaces the first, and left-overs precede the next request'
EDITS = [('src/app/modbus/server/session/ModbusSessionConnected.cpp', '    fsm.getEntity().receivePreaction();\n', ''),
         ('src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp', '    fsm.getEntity().startTimer(ModbusSession::aduRspTimeout);\n', '    fsm.getEntity().startTimer(ModbusSession::aduRspTimeout);\n    fsm.getEntity().receivePreaction();\n')]
DRIVER, LIBS = 'mb_drv', LIBS_MB
SCRIPTS = [[init(1, 0), cfgs(0), dict(op='acc', a=9), dict(op='sd', k=0, d=rd(1)), dict(op='sd', k=0, d=rd(2))]]
CHECK = '''
ok = len(S[0][3]["adu"]) == 1 and len(S[0][4]["adu"]) == 0
'''
