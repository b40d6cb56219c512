import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from uacommon import *
ID, PROPERTY = 'u03-silent-client-keeps-channel', 'U03'
NEEDS = 'clients that open a secure channel and then fall silent for 30 s, as many as there are channels'
BREAKS = 'the secure channel is not told that its connection ended for silence: channels are lost and in the end no client can open one'
T = 'src/app/ua/transport/server/'
EDITS = [(T + 'UaTcpConnectionConnected.cpp', '::onTimer(UaTcpConnection& fsm)\n{\n    fsm.sendUaConnectionReleaseInd();\n', '::onTimer(UaTcpConnection& fsm)\n{\n')]
DRIVER, LIBS = 'ua_drv', LIBS_UA
SCRIPTS = [UP + sum((conn(k) + [dict(op='tick', n=301)] + R for k in range(33)), [])]
CHECK = FR + 'ok = len(frames(0, 32)) == 2 and len(frames(0, 0)) == 2'
