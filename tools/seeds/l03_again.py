import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '..', 'lib'))
from gen_lib import o, opnr, ack
ID, PROPERTY = 'l03-answered-channel-opens-once', 'L03'
NEEDS = 'a server that answered the request to open the channel and then ends the connection, and an owner that opens the channel again'
BREAKS = 'the channel stays in its established state after its connection has ended: a further open is ignored for ever'
EDITS = [('src/app/common/ua/protocols/secure/OpcUaClientSecureChannelEstablished.cpp', '    fsm.notifyClosed();\n    fsm.transit<OpcUaClientSecureChannelInit>();\n', '    fsm.notifyClosed();\n'),
         ('src/app/common/ua/protocols/secure/OpcUaClientSecureChannelEstablished.cpp', '    fsm.notifyError();\n    fsm.transit<OpcUaClientSecureChannelInit>();\n', '    fsm.notifyError();\n')]
DRIVER, LIBS = 'lb_drv', ['common/logger', 'common/reactor', 'common/utils', 'common/msg', 'common/ua']
SCRIPTS = [[o('new', k=0, kind='cchan'), o('con', k=0, a=0, f=''), o('lc', k=0), o('d', k=0, d=ack()), opnr(0), o('le', k=0), o('con', k=0, a=0, f='')]]
CHECK = 'ok = len(S[0][-1]["att"]) == 1'
