import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from common import *
ID, PROPERTY = 'm01-timeout-stalls-queue', 'M01'
NEEDS = 'two requests queued, the device silent for the first'
BREAKS = 'after a receive timeout the client returns to its idle state instead of sending the next request: queued requests wait for a further request'
EDITS = [('src/app/modbus/client/ModbusClientReceive.cpp', '    fsm.getEntity().provideRspTimeout();\n    fsm.transit<ModbusClientSend>();',
          '    fsm.getEntity().provideRspTimeout();\n    fsm.transit<ModbusClientConnected>();'),
         ('src/app/modbus/client/ModbusClientReceive.cpp', '#include "ModbusClientSend.hpp"\n', '#include "ModbusClientSend.hpp"\n#include "ModbusClientConnected.hpp"\n')]
DRIVER, LIBS = 'mb_drv', LIBS_MB
SCRIPTS = [[init(0, 1), cfgc(0), dict(op='lc', p=1), req(1), req(2), tick(1), tick(500), tick(5), tick(2000)]]
CHECK = '''
ok = sum(len(o["rsp"]) for o in S[0]) == 2
'''
