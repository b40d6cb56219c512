import sys, os; sys.path.insert(0, os.path.dirname(__file__))
from common import *
ID, PROPERTY = 'r01-drop-leaves-token', 'R01'
NEEDS = 'a message without a handler in the middle of a burst handled in one go'
BREAKS = 'the messages behind one that has no handler are left in the store; they come out with later messages, if at all'
EDITS = [('src/app/common/reactor/Reactor.cpp', '            LM(GEN, LE, "Can not find handler: msgId=%zu", msg.getMsgId());', '            LM(GEN, LE, "Can not find handler: msgId=%zu", msg.getMsgId());\n            if (ev + 1 < val && val > 2) break;')]
DRIVER, LIBS, LINK = 're_drv', ['common/logger', 'common/reactor', 'common/utils'], '-ldl'
def m(k, v): return dict(m=k, len=64, v=v, act=0, n=0)
SCRIPTS = [[dict(op='reg', m=1, tag=1), dict(op='snd', q=[m(1, 1), m(2, 2), m(1, 3), m(1, 4)])]]
CHECK = '''
ok = [r[2] for r in S[0][1]["rx"]] == [1, 3, 4]
'''
