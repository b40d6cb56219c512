import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from common import *
ID, PROPERTY = 'm03-connect-timeout-no-retry', 'M03'
NEEDS = 'a connection attempt that neither succeeds nor fails within 3 s'
BREAKS = 'the link of an attempt that timed out stays open, so every further attempt finds it in use and fails'
EDITS = [('src/app/modbus/client/ModbusClientConnect.cpp', '    fsm.getEntity().close();\n    fsm.transit<ModbusClientBackoff>();', '    LM(MODBUS, LW, "connect timeout");\n    fsm.transit<ModbusClientBackoff>();')]
DRIVER, LIBS = 'mb_drv', LIBS_MB
SCRIPTS = [[init(0, 1), cfgc(0), tick(300), tick(50), dict(op='lc', p=1), tick(1000)]]
CHECK = '''
ok = S[0][2]["up"] == [] and S[0][3]["att"] == [{"p": 1, "n": 1}] and S[0][4]["up"] == [{"p": 1, "st": 2}]
'''
