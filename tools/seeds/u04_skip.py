import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from uacommon import *
ID, PROPERTY = 'u04-sequence-gap-accepted', 'U04'
NEEDS = 'a message whose sequence number leaves a gap'
BREAKS = 'a message is accepted although the ones before it are missing'
EDITS = [('src/app/ua/securechannel/channel/UaServerSecureChannel.cpp', '''    if (rxSeqHdr.sequenceNumber != (storedRxSequenceNumber + 1))
    {
        LM(UASC, LE, "Uid-%u, unexpected sequenceNumber", secureChannelId);
        return Result::error;
    }
    storedRxSequenceNumber = rxSeqHdr.sequenceNumber;

    reactor::''', '''    if (static_cast<std::int32_t>(rxSeqHdr.sequenceNumber - storedRxSequenceNumber) < 1)
    {
        LM(UASC, LE, "Uid-%u, unexpected sequenceNumber", secureChannelId);
        return Result::error;
    }
    storedRxSequenceNumber = rxSeqHdr.sequenceNumber;

    reactor::''')]
DRIVER, LIBS = 'ua_drv', LIBS_UA
SCRIPTS = [UP + conn(0) + [msg(0, 'gep', 2, 2, 7)] + R + [msg(0, 'gep', 4, 3, 8)] + R]
CHECK = FR + 'ok = len(frames(0, 0)) == 3 and S[0][-1]["open"] == []'
