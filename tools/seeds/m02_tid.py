import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from common import *
ID, PROPERTY = 'm02-late-response-accepted', 'M02'
NEEDS = 'a response that differs from the request only in the upper byte of the transaction id (a late response 256 transactions later)'
BREAKS = 'transaction ids are compared modulo 256'
EDITS = [('src/app/modbus/client/ModbusClient.cpp', 'if (aduReq.transactId != aduRsp.transactId)', 'if ((aduReq.transactId ^ aduRsp.transactId) & 0xFF)')]
DRIVER, LIBS = 'mb_drv', LIBS_MB
SCRIPTS = [[init(0, 1), cfgc(0), dict(op='lc', p=1), req(258), tick(1), dict(op='ld', p=1, d=regs(2))]]
CHECK = '''
ok = [r["s"] for r in S[0][5]["rsp"]] == [1]
'''
