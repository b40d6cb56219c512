import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '..', 'lib'))
from gen_lib import o, opn, sec, hello
ID, PROPERTY = 'l02-reopened-channel-keeps-number', 'L02'
NEEDS = 'a client that opens the channel once more with a lower sequence number than the last one seen, and goes on from there'
BREAKS = 'the server goes on expecting the numbers of the channel before: the next message in sequence is refused'
EDITS = [('src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp', '    storedRxSequenceNumber = seqHdr.sequenceNumber;\n    storedRequestId = seqHdr.requestId;\n\n    UaOpenSecureChannelReqCont req;\n',
          '    if (storedRxSequenceNumber < seqHdr.sequenceNumber)\n    {\n        storedRxSequenceNumber = seqHdr.sequenceNumber;\n    }\n    storedRequestId = seqHdr.requestId;\n\n    UaOpenSecureChannelReqCont req;\n'),
         ('src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.hpp', '    std::uint32_t storedRxSequenceNumber;', '    std::uint32_t storedRxSequenceNumber{};')]
DRIVER, LIBS = 'lb_drv', ['common/logger', 'common/reactor', 'common/utils', 'common/msg', 'common/ua']
SCRIPTS = [[o('new', k=0, kind='chan'), o('acc', k=0, f=''), o('d', k=0, d=hello()), opn(0, 50, 1, 1), sec(0, 'MSG', 51, 2, [1, 2, 3]), opn(0, 7, 3, 1), sec(0, 'MSG', 8, 4, [4, 5, 6])]]
CHECK = 'ok = any(e[1] and e[1][-3:] == [4, 5, 6] for e in S[0][-1]["ob"][0]["ev"])'
