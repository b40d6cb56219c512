import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from uacommon import *
ID, PROPERTY = 'u01-second-chance-for-hello', 'U01'
NEEDS = 'a client whose first message is not a well-formed Hello and who sends a well-formed one afterwards'
BREAKS = 'the connection is not ended by the wrong first message: the Hello after it is acknowledged and the client is served'
EDITS = [('src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp', '    case UaTcpConnection::Result::error:\n    {\n        fsm.transit<UaTcpConnectionInit>();\n', '    case UaTcpConnection::Result::error:\n    {\n        fsm.receivePreaction();\n')]
DRIVER, LIBS = 'ua_drv', LIBS_UA
SCRIPTS = [UP + [acc(), dict(op='d', k=0, d=[65, 67, 75, 70, 12, 0, 0, 0, 1, 2, 3, 4]), hel(0)] + R]
CHECK = FR + 'ok = len(frames(0, 0)) == 0'
