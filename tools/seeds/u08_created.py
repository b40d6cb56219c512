import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from uacommon import *
ID, PROPERTY = 'u08-unactivated-session-not-freed', 'U08'
NEEDS = 'sessions closed before they were activated, as many as there is room for'
BREAKS = 'closing a session that was never activated is answered but does not end it: in the end no session can be created'
EDITS = [('src/app/ua/service/session/UaSessionCreated.cpp', '    fsm.receive(hdr, req);\n    fsm.transit<UaSessionInit>();', '    fsm.receive(hdr, req);')]
DRIVER, LIBS = 'ua_drv', LIBS_UA
SCRIPTS = [UP + conn(0) + sum(([msg(0, 'create', 2 + 2 * i, 2, 7)] + R + [msg(0, 'close', 3 + 2 * i, 3, 7)] + R for i in range(33)), [])]
CHECK = FR + 'ok = len(frames(0, 0)) == 2 + 66'
