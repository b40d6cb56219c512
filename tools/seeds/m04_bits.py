import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from common import *
ID, PROPERTY = 'm04-coil-count-limit', 'M04'
NEEDS = 'a coil read of 2009..2015 coils'
BREAKS = 'the length of the expected response is rounded down, so a request no device can answer is sent'
EDITS = [('src/app/modbus/ModbusCodec.cpp', 'return pduFuncCodeLen + numBytesLen + (numItems + 7) / 8;', 'return pduFuncCodeLen + numBytesLen + numItems / 8;')]
DRIVER, LIBS = 'mb_drv', LIBS_MB
SCRIPTS = [[init(0, 1), cfgc(0), dict(op='lc', p=1), req(1, f=1, ni=2010), tick(1)]]
CHECK = '''
ok = S[0][4]["tx"] == [] and [r["s"] for r in S[0][4]["rsp"]] == [1]
'''
