import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from uacommon import *
ID, PROPERTY = 'u05-close-answer-out-of-sequence', 'U05'
NEEDS = 'a secure channel closed by its client after at least one further request'
BREAKS = 'the answer to the close request repeats the sequence number of the answer before'
EDITS = [('src/app/ua/securechannel/channel/UaServerSecureChannel.cpp', '''    txSeqHdr.sequenceNumber = sequenceNumberTx++;
    txSeqHdr.requestId = rxSeqHdr.requestId;
    txCodec << txSeqHdr;

    UaCloseSecureChannelRspCont rsp;''', '''    txSeqHdr.sequenceNumber = sequenceNumberTx > 1 ? sequenceNumberTx - 1 : sequenceNumberTx;
    txSeqHdr.requestId = rxSeqHdr.requestId;
    txCodec << txSeqHdr;

    UaCloseSecureChannelRspCont rsp;''')]
DRIVER, LIBS = 'ua_drv', LIBS_UA
SCRIPTS = [UP + conn(0) + [msg(0, 'gep', 2, 2, 7)] + R + [clo(0, 3, 3, 8)] + R]
CHECK = FR + 'f = frames(0, 0)\nok = len(f) == 4 and u4(f[3], 16) == u4(f[2], 16) + 1'
