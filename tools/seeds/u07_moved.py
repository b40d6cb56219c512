import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from uacommon import *
ID, PROPERTY = 'u07-old-channel-still-reads', 'U07'
NEEDS = 'a session activated on a second channel; then a Read on the first one'
BREAKS = 'the channel the session was moved away from still reads'
EDITS = [('src/app/ua/service/session/UaSession.cpp', 'if (not secureChannelId || *secureChannelId != hdr.secureChannelId)', 'if (not secureChannelId || hdr.sessionId != sessionId)')]
DRIVER, LIBS = 'ua_drv', LIBS_UA
SCRIPTS = [UP + conn(0) + conn(1) + [msg(0, 'create', 2, 2, 7)] + R + [msg(0, 'activate', 3, 3, 7)] + R + [msg(0, 'read', 4, 4, 7, sid=0)] + R
           + [msg(1, 'activate', 2, 5, 7, sid=0)] + R + [msg(0, 'read', 5, 6, 8, sid=0)] + R + [msg(1, 'read', 3, 7, 9, sid=0)] + R]
CHECK = FR + 'ok = len(frames(0, 0)) == 5 and len(frames(0, 1)) == 4'
