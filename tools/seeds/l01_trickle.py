import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '..', 'lib'))
ID, PROPERTY = 'l01-trickle-extends-handshake', 'L01'
NEEDS = 'an ACK of which the peer sends a piece before the time is over and the rest (or nothing) after it'
BREAKS = 'every piece of an ACK gives the peer the whole time again: a handshake that should have failed goes on'
EDITS = [('src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp', '    case OpcUaConnection::Result::noerror:\n    break;\n',
          '    case OpcUaConnection::Result::noerror:\n    {\n        fsm.startTimer(ClientConnection::receiveTimeout);\n    }\n    break;\n')]
DRIVER, LIBS = 'lb_drv', ['common/logger', 'common/reactor', 'common/utils', 'common/msg', 'common/ua']
def o(op, **kw): return dict(op=op, **kw)
SCRIPTS = [[o('new', k=0, kind='client'), o('con', k=0, a=0, f=''), o('lc', k=0), o('d', k=0, d=[65, 67, 75]), o('tick', n=6), o('d', k=0, d=[70, 28]), o('tick', n=6)]]
CHECK = 'ok = S[0][-1]["ob"][0]["ev"] == [["error", []]]'
