import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from common import *
ID, PROPERTY = 'm06-answer-matched-by-low-byte', 'M06'
NEEDS = 'a stale answer whose transaction id differs from the waiting one only in the upper byte'
BREAKS = 'the answer to another transaction is sent as the answer to the waiting one'
EDITS = [('src/app/modbus/server/session/ModbusSession.cpp', 'if (rsp.transactId != storedAdu.transactId)', 'if (static_cast<std::uint8_t>(rsp.transactId) != static_cast<std::uint8_t>(storedAdu.transactId))')]
DRIVER, LIBS = 'mb_drv', LIBS_MB
SCRIPTS = [[init(1, 0), cfgs(0), dict(op='acc', a=9), dict(op='sd', k=0, d=rd(0x105)), dict(op='arsp', k=0, tid=0x205, e=0, st=0, d=[1, 2])]]
CHECK = '''
ok = S[0][4]["ctx"] == []
'''
