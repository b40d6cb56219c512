import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from uacommon import *
ID, PROPERTY = 'u02-close-on-other-channel', 'U02'
NEEDS = 'a CloseSecureChannel message naming a channel opened on another connection'
BREAKS = 'it is passed on instead of ending the connection it came on'
EDITS = [('src/app/ua/transport/server/UaTcpConnection.cpp', '''    case UaSecMsgType::clo:
    {
        if (not associatedSecureChannelId || *associatedSecureChannelId != hdr.secureChannelId)''', '''    case UaSecMsgType::clo:
    {
        if (not associatedSecureChannelId)''')]
DRIVER, LIBS = 'ua_drv', LIBS_UA
SCRIPTS = [UP + conn(0) + conn(1) + [clo(1, 2, 2, 7, of=0)] + R]
CHECK = FR + 'ok = S[0][-1]["open"] == [0]'
