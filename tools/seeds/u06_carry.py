import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from uacommon import *
ID, PROPERTY = 'u06-session-carried-over', 'U06'
NEEDS = 'a channel with an active session ends, and after 32 further channels its number is used again'
BREAKS = 'the next client on that channel number reads with the session of the former one'
EDITS = [('src/app/ua/securechannel/channel/UaServerSecureChannel.cpp', '    connectionId = {};\n    sessionId = {};\n', '    connectionId = {};\n')]
DRIVER, LIBS = 'ua_drv', LIBS_UA
SCRIPTS = [UP + conn(0) + [msg(0, 'create', 2, 2, 7)] + R + [msg(0, 'activate', 3, 3, 7)] + R + [eof(0)] + R
           + sum((conn(k) + [eof(k)] + R for k in range(1, 32)), []) + conn(32) + [msg(32, 'read', 2, 2, 7, sid=0)] + R]
CHECK = FR + 'ok = len(frames(0, 0)) == 4 and len(frames(0, 32)) == 2'
