"""Scripts for the OPC UA library: owners, peers and links that do all sorts of things. Channel and token numbers chosen by the
library are put in by the driver ("sub"). What must happen is decided by the specification."""
import uawire as w
from gen_ua import hello, opnbody, s_, size, split as _split, bit, NONE

le = w.le
KINDS = ['client', 'server', 'chan', 'cchan']
DIALS = ['client', 'cchan']


def o(op, **kw):
    return dict(op=op, **kw)


def ack(rng=None):
    return size([65, 67, 75, 70] + [0] * 4 + (le(0, 4) + le(65536, 4) * 3 + le(5000, 4) if rng is None else [rng.randrange(256) for _ in range(20)]))


def opn(k, seq, rid, h, life=3600):
    return o('d', k=k, d=size([79, 80, 78, 70] + [0] * 4 + le(0, 4) + opnbody(seq, rid, h, life)))


def opnr(k, seq=1, ch=7, tok=8, life=3600, rng=None):
    """the answer to the object's request for a channel"""
    hd = [79, 80, 78, 70] + [0] * 4 + le(ch, 4) + s_(NONE) + s_([]) + s_([]) + le(seq, 4)
    rid = len(hd)
    t = w.nodeid_of(449)
    stamp = [1] * 8 if rng is None else [rng.randrange(256) for _ in range(8)]
    f = hd + le(0, 4) + t + stamp + le(0, 4) + le(0, 4) + [0] + le(0xffffffff, 4) + [0, 0, 0] + le(0, 4) + le(ch, 4) + le(tok, 4) + stamp + le(life, 4) + s_([])
    return o('d', k=k, d=size(f), sub=[[rid, 'rid'], [rid + 4 + len(t) + 8, 'h']])


def cut(m, n):
    return dict(m, d=size(m['d'][:n]), sub=[y for y in m.get('sub', []) if y[0] + 4 <= n])


def sec(k, ty, seq, rid, bd, which='tok', x=0):
    f = size([ord(c) for c in ty] + [70] + [0] * 8 + le(0, 4) + le(seq, 4) + le(rid, 4) + bd)
    return o('d', k=k, d=f, sub=[[8, 'ch'], [12, which] + [x] * (x > 0)])


def split(rng, op):
    op = dict(op, sub=[[s[0], 4, *s[1:]] for s in op.get('sub', [])])
    out = _split(rng, op)
    for x in out:
        if x.get('sub'):
            x['sub'] = [[s[0], *s[2:]] for s in x['sub']]
        else:
            x.pop('sub', None)
    return out


def anymsg(rng):
    n = rng.choice([0, 1, 4, 20, 60, 200]) if rng.random() < .93 else rng.choice([1016, 1017, 1024, 1025, 2000, 4087, 4088])
    ty = rng.choice(['MSG', 'OPN', 'CLO', 'HEL', 'ACK', 'ERR', 'xyz'])
    return size([ord(c) for c in ty] + [rng.choice([70, 67, 65, 0])] + [0] * 4 + [rng.randrange(256) for _ in range(n)])


def other(rng, f):
    """all right but for its type"""
    m = f(rng if rng.random() < .5 else None)
    m[:3] = [ord(c) for c in rng.choice(['HEL', 'ACK', 'OPN', 'MSG', 'CLO', 'ERR', 'RHE', 'HEl', 'ACk'])]
    return m


def junk(rng):
    k = rng.random()
    m = anymsg(rng)
    if k < .3:
        m[4:8] = rng.choice([le(len(m) - 1, 4), le(len(m) + 1, 4), le(0, 4), le(7, 4), le(4, 4), le(8, 4), le(4096, 4), le(4097, 4), le(65536 + len(m), 4),
                             le(0xffffffff, 4), le(0x80000000, 4), le(len(m) + 0x01000000, 4)])
        return m
    if k < .5:
        return w.broken(hello(rng), rng)
    if k < .7:
        return w.broken(ack(rng), rng)
    if k < .8:
        return m + [rng.randrange(256)]
    if k < .9:
        return other(rng, rng.choice([hello, ack]))
    return [rng.randrange(256) for _ in range(rng.choice([1, 3, 8, 12, 40]))]


class Lib:
    def __init__(self, rng, kinds):
        self.r, self.ops = rng, [o('new', k=i, kind=k) for i, k in enumerate(kinds)]
        self.kind = list(kinds)
        self.st = ['idle'] * len(kinds)        # a guess
        self.up = [False] * len(kinds)
        self.seq = [0] * len(kinds)
        self.rid = 1
        self.left = [0] * len(kinds)

    def idle(self, k):
        self.st[k], self.up[k] = 'idle', False

    def start(self, k):
        r = self.r
        f = '' if r.random() < .85 else r.choice(['link', 'timer', 'conn'])
        if self.kind[k] in DIALS or (self.kind[k] == 'server' and r.random() < .4):
            self.ops.append(o('con', k=k, a=k, f=f))
            if not f and self.st[k] == 'idle':
                self.st[k] = 'conn'
        else:
            f = f if f == 'timer' else ''
            self.ops.append(o('acc', k=k, f=f))
            if not f and self.st[k] == 'idle':
                self.st[k] = 'shake'

    def data(self, k, d):
        d = d if isinstance(d, dict) else o('d', k=k, d=d)
        p = split(self.r, d)
        for i, x in enumerate(p):
            self.ops.append(x)
            if i + 1 < len(p) and self.r.random() < .2:
                self.other(k)

    def other(self, k):
        r = self.r
        j = r.randrange(len(self.kind))
        if j != k:
            self.one(j)
        elif r.random() < .5:
            self.ops.append(o('tick', n=r.choice([1, 2, 5, 9])))

    def one(self, k):
        """what could well happen to it next"""
        r, s, kind = self.r, self.st[k], self.kind[k]
        if s == 'idle':
            return self.start(k)
        if s == 'conn':
            self.ops.append(o('lc', k=k))
            self.st[k] = 'shake'
        elif s == 'shake':
            self.data(k, (ack(r if r.random() < .5 else None) if kind in DIALS else hello(r if r.random() < .5 else None)))
            self.st[k] = 'live'
        elif kind == 'cchan':
            if not self.up[k]:
                self.data(k, opnr(k, r.choice([0, 1, 0xffffffff]), r.choice([0, 1, 0xffffffff]), r.choice([0, 9, 0x01020304]), r.choice([0, 3600, 0xffffffff]), r))
                self.up[k] = True
            elif r.random() < .6:
                self.data(k, r.choice([anymsg(r), opnr(k)]))
            else:
                self.time(r.choice([1, 9, 30, 60]))
        elif kind != 'chan':
            if r.random() < .3:
                self.ops.append(o('snd', k=k, d=[r.randrange(256) for _ in range(r.choice([1, 8, 100]))]))
            else:
                self.data(k, anymsg(r))
        elif not self.up[k] or r.random() < .15:
            q = r.choice([0, 1, 5, 0x7fffffff, 0xfffffffe, 0xffffffff])
            self.data(k, opn(k, q, r.choice([1, 7, 0xffffffff]), r.choice([0, 9, 0x01020304]), r.choice([0, 3600, 0xffffffff])))
            self.up[k], self.seq[k] = True, q
        elif r.random() < .35:
            n = r.choice([0, 1, 30, 300]) if r.random() < .93 else r.choice([4071, 4072, 4073, 4080, 4096])
            self.ops.append(o('snd', k=k, d=[r.randrange(256) for _ in range(n)]))
        elif r.random() < .92:
            self.seq[k] = (self.seq[k] + 1) & 0xffffffff
            n = r.choice([0, 1, 10, 120]) if r.random() < .97 else r.choice([1000, 1001, 2500, 4071, 4072])
            self.data(k, sec(k, 'MSG', self.seq[k], r.choice([1, 2, 300, 0x80000001]), [r.randrange(256) for _ in range(n)]))
        else:
            self.data(k, sec(k, 'CLO', (self.seq[k] + 1) & 0xffffffff, 4, []))
            self.idle(k)

    def trouble(self, k):
        r, kind = self.r, self.kind[k]
        c = r.choice(['cls', 'le', 'eof', 'sf', 'junk', 'tick', 'start', 're', 're', 're', 'idlesend', 'bad', 'bad', 'bad'])
        if c in ('cls', 'le', 'eof'):
            self.ops.append(o(c, k=k))
            if not (c == 'eof' and self.st[k] == 'conn'):
                self.idle(k)
        elif c == 'sf':
            self.ops.append(o('sf', k=k))
        elif c == 'junk':
            self.data(k, junk(r))
            if self.st[k] in ('shake', 'live') and r.random() < .7:
                self.idle(k)
        elif c == 'tick':
            self.time(r.choice([9, 10, 11, 29, 30, 31, 90, 99, 100, 101]))
        elif c == 'start':
            self.start(k)
        elif c == 're':
            e = r.choice(['request', 'request', 'error', 'closed'] if kind == 'chan' else ['error', 'closed'] if kind == 'cchan' else ['connected', 'data', 'error', 'closed'])
            d = 'close' if e in ('error', 'closed') else r.choice(['close', 'send', 'send'])
            self.ops.append(o('re', k=k, on=e, do=d, d=[r.randrange(256) for _ in range(r.choice([0, 1, 12, 50]))]))
        elif c == 'idlesend':
            if self.st[k] == 'idle':
                self.ops.append(o('snd', k=k, d=[1, 2, 3]))
        elif kind == 'chan' and self.up[k]:
            s = (self.seq[k] + 1) & 0xffffffff
            ty = r.choice(['MSG', 'MSG', 'CLO'])
            x = r.choice(['seq', 'tok', 'old', 'short', 'opn', 'type', 'ok'])
            if x == 'seq':
                self.data(k, sec(k, ty, r.choice([s + 1, s - 1, s ^ 0x80000000, s ^ 0x10000, s ^ 0x100, 0]) & 0xffffffff, 5, [1]))
            elif x == 'tok':
                self.data(k, sec(k, ty, s, 5, [1], x=bit(r)))
            elif x == 'old':
                self.data(k, sec(k, ty, s, 5, [1], which='old'))
            elif x == 'short':
                m = sec(k, ty, s, 5, [])
                n = r.choice([8, 11, 12, 15, 16, 19, 20, 23])
                self.data(k, dict(m, d=size(m['d'][:n]), sub=[y for y in m['sub'] if y[0] + 4 <= n]))
            elif x == 'opn':
                m = opn(k, 3, 4, 5)
                self.data(k, size(m['d'][:r.randrange(8, len(m['d']))]))
            elif x == 'type':
                self.data(k, anymsg(r))
                return
            else:
                self.seq[k] = s
                self.data(k, sec(k, 'MSG', s, 6, [3] * r.randrange(5)))
                return
            self.idle(k)
        elif kind == 'chan' and self.st[k] == 'live':
            self.data(k, r.choice([sec(k, 'MSG', 1, 1, [4]), sec(k, 'CLO', 1, 1, []), o('d', k=k, d=hello()), o('d', k=k, d=ack()),
                                   o('d', k=k, d=size(opn(k, 1, 2, 3)['d'][:r.randrange(8, 100)]))]))
        elif kind == 'cchan' and self.st[k] == 'live' and not self.up[k]:
            m = opnr(k)
            x = r.choice(['short', 'short', 'type', 'any', 'broken'])
            self.data(k, cut(m, r.randrange(8, len(m['d']))) if x == 'short' else dict(m, d=[ord(c) for c in r.choice(['MSG', 'CLO', 'ACK', 'OPm'])] + m['d'][3:]) if x == 'type'
                      else anymsg(r) if x == 'any' else o('d', k=k, d=w.broken(m['d'], r)))
            self.idle(k)
        elif self.st[k] == 'shake':
            self.data(k, other(r, ack if kind in DIALS else hello) if r.random() < .7 else ack() if kind not in DIALS else hello())
            self.idle(k)

    def time(self, n):
        self.ops.append(o('tick', n=n))
        for k in range(len(self.kind)):
            if (self.st[k] == 'conn' and n >= 30) or (self.st[k] == 'shake' and n >= 10) or (self.st[k] == 'live' and n >= 100):
                self.idle(k)


def objects(rng, kinds, n):
    g = Lib(rng, kinds)
    p = rng.choice([.1, .2, .35])
    for _ in range(n):
        k = rng.randrange(len(kinds))
        if rng.random() < p:
            g.trouble(k)
        elif rng.random() < .1:
            g.time(rng.choice([1, 3, 9, 10, 20, 29, 30, 50, 91, 100]))
        else:
            g.one(k)
    return g.ops


def connections(rng, n):
    return objects(rng, [rng.choice(['client', 'server']) for _ in range(rng.choice([1, 2, 3]))], n)


def channels(rng, n):
    return objects(rng, ['chan'] * rng.choice([1, 1, 2]), n)


def clients(rng, n):
    return objects(rng, ['cchan'] * rng.choice([1, 1, 2]), n)


def mixed(rng, n):
    return objects(rng, [rng.choice(KINDS) for _ in range(3)], n)


TIME = {1: 9, 4: 101}


def concrete(kind):
    """a script of MCLib with the bytes put in; times there are 3, 2, 4 instead of 30, 10, 100"""
    def f(ops):
        out = [o('new', k=0, kind=kind)]
        half = None
        seq = 0
        phase = 'idle'
        for x in ops:
            op, h = x['op'], x.get('h')
            m = None
            if op in ('con', 'acc'):
                out.append(o(op, k=0, a=0, f=x['f']))
            elif op in ('cls', 'lc', 'le', 'eof', 'sf'):
                out.append(o(op, k=0))
            elif op == 'snd':
                out.append(o('snd', k=0, d=[9] if x['n'] == 1 else [9] * 4073))
            elif op == 're':
                out.append(o('re', k=0, on=x['on'], do=x['do'], d=[9]))
            elif op == 'tick':
                out.append(o('tick', n=TIME[x['n']]))
            elif op == 'half':
                half = True
            elif op == 'junk':
                m = o('d', k=0, d=[1] * 12)
            elif op == 'hel':
                m = o('d', k=0, d=hello() if h == 'ok' else size(hello()[:20]))
            elif op == 'ack':
                m = o('d', k=0, d=ack() if h == 'ok' else size(ack()[:20]))
            elif op == 'opnr':
                m = opnr(0) if h == 'ok' else cut(opnr(0), 60)
            elif op == 'any':
                m = o('d', k=0, d=size([77, 83, 71, 70] + [0] * 4 + [1] * 16))
            elif op == 'opn':
                m = opn(0, 5, 2, 2, 1)
                if h == 'fail':
                    m = o('d', k=0, d=size(m['d'][:30]))
                else:
                    seq = 5
            else:
                ty = op.upper()
                if h == 'fail':
                    m = o('d', k=0, d=size(sec(0, ty, 1, 3, [])['d'][:14]))
                else:
                    s = seq + dict(ok=1, seq=2, old=0, tok=1)[h]
                    m = sec(0, ty, s, 3, [5] if op == 'msg' else [], which='old' if h == 'tok' else 'tok')
                    seq = s
            if m:
                if half:
                    out.append(dict(o('d', k=0, d=m['d'][:9]), **({'sub': []})))
                    m = dict(m, d=m['d'][9:], sub=[[y[0] - 9, *y[1:]] for y in m.get('sub', []) if y[0] >= 9])
                    half = None
                out.append(m)
            elif half and op not in ('half', 're', 'snd', 'tick'):
                half = None
            for y in out:
                if y.get('sub') == []:
                    y.pop('sub')
        return out
    return f
