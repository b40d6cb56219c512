LIBS_MB = ['common/logger', 'common/reactor', 'common/utils', 'common/msg', 'modbus']
def init(s, c): return dict(op='init', s=s, c=c)
def cfgc(*ids): return dict(op='cfg', items=[dict(m='c', id=i, a=i + 1) for i in ids])
def cfgs(*ids): return dict(op='cfg', items=[dict(m='s', id=i, a=9 + i) for i in ids])
def req(tid, f=3, a=1, si=0, ni=1, d=(), c=0): return dict(op='req', items=[dict(c=c, th=0, tl=tid, f=f, a=a, si=si, ni=ni, d=list(d))])
def tick(n): return dict(op='tick', n=n)
def regs(tid, a=1, f=3, d=(1, 2)): return [tid >> 8, tid & 255, 0, 0, 0, 3 + len(d), a, f, len(d)] + list(d)
def rd(tid, a=1, f=3, si=0, ni=1): return [tid >> 8, tid & 255, 0, 0, 0, 6, a, f, si >> 8, si & 255, ni >> 8, ni & 255]
