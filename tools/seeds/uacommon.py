import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '..', 'lib'))
from gen_ua import UP, ROUND, hello, opn, msg, clo
LIBS_UA = ['common/logger', 'common/reactor', 'common/utils', 'common/msg', 'common/ua', 'ua']
R = ROUND * 3
def acc(): return dict(op='acc', a=0)
def hel(k): return dict(op='d', k=k, d=hello())
def conn(k, seq=1): return [acc(), hel(k), opn(k, seq, 1, 9)] + R
def eof(k): return dict(op='eof', k=k)
# in CHECK: S[i] = steps of script i; frames sent to client k
FR = '''
def frames(i, k):
    out = []
    for o in S[i]:
        for t in o["tx"]:
            if t["k"] == k:
                b = t["d"]
                while len(b) >= 8:
                    n = b[4] + 256*b[5]
                    out.append(b[:n]); b = b[n:]
    return out
u4 = lambda b, p: sum(b[p+j] << 8*j for j in range(4))
'''
