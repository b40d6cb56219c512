import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from uacommon import *
ID, PROPERTY = 'u09-answers-after-256', 'U09'
NEEDS = 'a channel on which more than 255 answers have been sent'
BREAKS = 'the sequence number of the answers starts again at 0: the sequence a client checks is broken'
EDITS = [('src/app/ua/securechannel/channel/UaServerSecureChannel.hpp', '    std::uint32_t sequenceNumberTx{1};', '    std::uint8_t sequenceNumberTx{1};')]
DRIVER, LIBS = 'ua_drv', LIBS_UA
SCRIPTS = [UP + conn(0) + sum(([msg(0, 'gep', 2 + i, 2, 7)] + ROUND for i in range(258)), []) + R]
CHECK = FR + '''
f = frames(0, 0)
s = [u4(x, 16) for x in f[2:]]
ok = len(s) == 258 and all(b == a + 1 for a, b in zip(s, s[1:]))
'''
