"""Random histories for the Modbus component. A small guess of the state makes most
inputs meaningful; the specification decides what is to be expected of them."""
import random

F_READBITS, F_READREGS, F_SINGLE, F_MULTI = (1, 2), (3, 4), (5, 6), 16


def be(x):
    return [(x >> 8) & 255, x & 255]


def hdr(tid, ln, proto=0):
    return be(tid) + be(proto) + be(ln)


def swap(d):
    return [d[i ^ 1] if (i ^ 1) < len(d) else d[i] for i in range(len(d))]


class G:
    def __init__(self, rng, weights):
        self.r = rng
        self.w = weights
        self.ops = []

    def op(self, op, **kw):
        self.ops.append(dict(op=op, **kw))

    def bs(self, n):
        r = self.r
        return [r.randrange(256) for _ in range(n)]

    # ---- requests of the user
    def request(self, c):
        r = self.r
        tid = r.choice([r.randrange(65536), r.randrange(8), 0, 65535, 255, 256])
        th = 0 if r.random() < .93 else r.choice([1, 2, 65535])
        f = r.choice([1, 2, 3, 3, 3, 3, 4, 4, 4, 5, 6, 6, 16, 16])
        a = r.choice([0, 1, 5, 247, r.randrange(248)])
        si = r.choice([0, 1, 255, 256, 65535, r.randrange(65536)])
        ni, d = 0, []
        if f in F_READBITS:
            ni = r.choice([0, 1, 7, 8, 9, 2000, 2007, 2008, 2009, 2010, 2015, 2016, r.randrange(2100)])
        elif f in F_READREGS:
            ni = r.choice([0, 1, 2, 3, 124, 125, 125, 126, r.randrange(127)])
        elif f == 5:
            d = r.choice([[0, 255], [0, 0]])
        elif f == 6:
            d = self.bs(2)
        else:
            n = r.choice([0, 1, 2, 3, 60, 122, 123])
            ni, d = n, self.bs(2 * n)
        if r.random() < .15:                      # something not acceptable
            k = r.randrange(9)
            if k == 0: f = r.choice([0, 7, 8, 15, 17, 23, 0x83, 255, 22])
            elif k == 1: a = r.choice([248, 255])
            elif k == 2: ni = r.choice([65535, 2009, 126, 127, 128])
            elif k == 3: d = self.bs(r.choice([0, 1, 2, 3, 4, 5]))
            elif k == 4: d = d[:-1]
            elif k == 5: d = r.choice([[255, 0], [1, 255], [0, 254], [255, 255], [0, 1]]) if f == 5 else d + self.bs(1)
            elif k == 6 and f == 16: ni += 1
            elif k == 7 and f == 16: n = r.choice([124, 125, 126, 130]); ni, d = n, self.bs(2 * n)
            elif k == 8: d = self.bs(r.choice([259, 260, 261, 262, 300]))
        return dict(c=c, th=th, tl=tid, f=f, a=a, si=si, ni=ni, d=d)

    @staticmethod
    def ok(q):
        f, ni, d = q['f'], q['ni'], q['d']
        if q['a'] > 247 or len(d) > 260: return False
        if f in F_READBITS: return 2 + (ni + 7) // 8 <= 253
        if f in F_READREGS: return 2 + 2 * ni <= 253
        if f in F_SINGLE: return ni == 0 and len(d) == 2 and (f != 5 or d in ([0, 255], [0, 0]))
        if f == F_MULTI: return len(d) == 2 * ni and 13 + len(d) <= 260
        return False

    # ---- responses of the device
    def response(self, q):
        r = self.r
        f, tid, a = q['f'], q['tl'], q['a']

        def good(tid=tid, a=a, f=f, proto=0, n=None):
            if f in F_READREGS:
                n = q['ni'] if n is None else n
                n = min(n, 120)
                return hdr(tid, 3 + 2 * n, proto) + [a, f, 2 * n] + self.bs(2 * n)
            if f in F_SINGLE:
                return hdr(tid, 6, proto) + [a, f] + be(q['si']) + (swap(q['d'])[:2] if len(q['d']) >= 2 and r.random() < .6 else self.bs(2))
            if f == F_MULTI:
                return hdr(tid, 6, proto) + [a, f] + be(q['si']) + be(q['ni'])
            return hdr(tid, 4, proto) + [a, f, 1, r.randrange(256)]

        k = r.random()
        if k < .6: return good()
        k = r.randrange(18)
        if k == 0: return good(tid=(tid + r.choice([1, 255, 256, 65535])) % 65536)
        if k == 1: return good(a=(a + 1) % 256)
        if k == 2: return good(f=r.choice([1, 3, 4, 5, 6, 16, 7]))
        if k == 3: return good(proto=r.choice([1, 256]))
        if k == 4: return hdr(tid, 3) + [a, 0x8f, r.choice([1, 2, 3, 4, 5, 6, 8, 10, 11, 0, 255])]
        if k == 5: return hdr(tid, 3) + [a, f | 128, r.choice([1, 2, 3])]
        if k == 6: return hdr(tid, 2) + [a, 0x8f]
        if k == 7: return hdr(tid, 4) + [a, 0x8f, 2, 0]
        if k == 8:
            b = good(); b[5] = (b[5] + r.choice([1, 255, 2])) % 256; return b
        if k == 9:
            b = good(); return b + self.bs(r.choice([1, 2, 8]))
        if k == 10: return hdr(tid, r.choice([254, 255, 300, 65535, 253])) + self.bs(r.choice([0, 2, 10]))
        if k == 11: return hdr(tid, r.choice([0, 1, 2])) + self.bs(r.choice([0, 1, 2]))
        if k == 12:
            n = r.choice([1, 3, 5]); return hdr(tid, 3 + n) + [a, f, n] + self.bs(n)
        if k == 13: return good(n=r.choice([0, 1, 2, 3, 4]))
        if k == 14: return self.bs(r.choice([1, 3, 6, 8, 9, 12, 20]))
        if k == 15:
            n = r.choice([2, 4, 6]); return hdr(tid, 3 + n) + [a, f, n + r.choice([-2, 2, 1, -1])] + self.bs(n)
        if k == 16: return hdr((tid + 1) % 65536, 3) + [a, 0x8f, 2]
        b = good()
        i = r.randrange(len(b)); b[i] ^= 1 << r.randrange(8)
        return b

    def chunks(self, b, p=.35):
        """split into segments, sometimes dropping the last one"""
        r = self.r
        if not b: return []
        if r.random() > p: return [b]
        n = r.choice([1, 1, 2, 3])
        if r.random() < .2: cut = [r.randrange(1, 7) for _ in range(n)]
        else: cut = [r.randrange(1, max(2, len(b))) for _ in range(n)]
        cut = sorted(set(x for x in cut if 0 < x < len(b)))
        out, last = [], 0
        for x in cut + [len(b)]:
            out.append(b[last:x]); last = x
        return out

    # ---- requests of a remote client
    def adu(self, tid=None):
        r = self.r
        tid = r.randrange(65536) if tid is None else tid
        f = r.choice([1, 2, 3, 3, 4, 4, 5, 5, 6, 6, 16, 16])
        a = r.choice([0, 1, 17, 247, r.randrange(248)])
        si = r.randrange(65536)
        if f in F_READBITS: b = [a, f] + be(si) + be(r.choice([0, 1, 8, 2000, 2001, 2008, 2009, 2015, 2016]))
        elif f in F_READREGS: b = [a, f] + be(si) + be(r.choice([0, 1, 2, 125, 126, 127, r.randrange(126)]))
        elif f == 5: b = [a, f] + be(si) + r.choice([[255, 0], [0, 0], self.bs(2)])
        elif f == 6: b = [a, f] + be(si) + self.bs(2)
        else:
            n = r.choice([0, 1, 2, 3, 100, 119])
            b = [a, f] + be(si) + be(n) + [2 * n] + self.bs(2 * n)
        good = True
        proto = 0
        ln = len(b)
        if r.random() < .28:
            good = False
            k = r.randrange(9)
            if k == 0: b[0] = r.choice([248, 255])
            elif k == 1: b[1] = r.choice([0, 7, 15, 17, 0x83, 255])
            elif k == 2: proto = r.choice([1, 256])
            elif k == 3: b = b[:-1]; ln = len(b)
            elif k == 4: b = b + [0]; ln = len(b)
            elif k == 5 and f == 16: b[6] = (b[6] + r.choice([1, 2, 255])) % 256
            elif k == 5: b = b[:2]; ln = 2
            elif k == 6: ln = r.choice([254, 255, 256, 65535, 300])
            elif k == 7:
                if f in F_READREGS: b[4:6] = be(r.choice([126, 127, 65535]))
                elif f in F_READBITS: b[4:6] = be(r.choice([2009, 2010, 65535]))
                else: b = b + self.bs(2)
            elif k == 8: b = self.bs(r.choice([1, 2, 6, 7, 9])); ln = len(b)
        return hdr(tid, ln, proto) + b, dict(tid=tid, f=b[1] if len(b) > 1 else 0, good=good)

    # ---- histories
    def setup(self, nc, ns, connect=True):
        self.nc, self.ns = nc, ns
        self.caddr = {c: c + 1 for c in range(nc)}
        self.saddr = {s: 9 + s for s in range(ns)}
        self.up = set()
        self.q = {c: [] for c in range(nc)}
        self.out = {c: None for c in range(nc)}
        self.late = {c: None for c in range(nc)}
        self.conns, self.nk = {}, 0
        self.op('init', s=ns, c=nc)
        items = [dict(m='c', id=c, a=self.caddr[c]) for c in range(nc)] + [dict(m='s', id=s, a=self.saddr[s]) for s in range(ns)]
        if self.r.random() < .1: self.r.shuffle(items)
        if self.r.random() < .9: self.op('cfg', items=items)
        else:
            for it in items: self.op('cfg', items=[it])
        if connect:
            for c in range(nc):
                if self.r.random() < .9: self.op('lc', p=self.caddr[c]); self.up.add(c)

    def tick(self, n):
        self.op('tick', n=n)
        for c in self.up:
            if n >= 500 and self.out[c]: self.late[c], self.out[c] = self.out[c], None
            if self.out[c] is None:
                while self.q[c]:
                    q = self.q[c].pop(0)
                    if self.ok(q): self.out[c] = q; break

    def down(self, c):
        self.up.discard(c)
        self.q[c] = []; self.out[c] = None

    def step_client(self):
        r = self.r
        c = r.randrange(self.nc)
        k = r.choices(['req', 'rsp', 'tick', 'long', 'fault', 'lc', 'noise', 'burst'],
                      [24, 34, 22, 5, 4, 8, 5, .5])[0]
        if k == 'req':
            its = []
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                cc = c if r.random() < .85 else r.choice(list(range(self.nc)) + [self.nc, 7, 1000])
                its.append(self.request(cc))
            self.op('req', items=its)
            for q in its:
                if q['c'] in self.up: self.q[q['c']].append(q)
        elif k == 'burst':
            its = [self.request(c) for _ in range(r.choice([30, 63, 64, 65, 66]))]
            for q in its: q['d'] = q['d'][:8]
            self.op('req', items=its)
            if c in self.up: self.q[c] += its[:64]
        elif k == 'rsp':
            if self.out[c] is None and c in self.up and self.q[c]: self.tick(1)
            q = self.out[c] or self.late[c] or self.request(c)
            late = self.out[c] is None
            if not late and self.late[c] and r.random() < .15: q, late = self.late[c], True
            b = self.response(q)[:250]
            ch = self.chunks(b)
            if len(ch) > 1 and r.random() < .12: ch = ch[:-1]
            for i, x in enumerate(ch):
                if i and r.random() < .25: self.tick(r.choice([1, 1, 3, 100, 499]))
                self.op('ld', p=self.caddr[c], d=x)
            if not late: self.late[c], self.out[c] = self.out[c], None
        elif k == 'tick':
            self.tick(r.choice([1, 1, 1, 1, 2, 2, 3, 10]))
        elif k == 'long':
            self.tick(r.choice([48, 49, 50, 51, 52, 298, 299, 300, 301, 349, 350, 351, 498, 499, 500, 501, 502, 600, 1200]))
        elif k == 'fault':
            f = r.choice(['le', 'leof', 'sf', 'cf'])
            self.op(f, p=self.caddr[c])
            if f in ('le', 'leof'): self.down(c)
            if f == 'sf' and r.random() < .5: self.tick(1)
        elif k == 'lc':
            if c not in self.up:
                if r.random() < .7: self.tick(r.choice([50, 51, 350]))
                self.op('lc', p=self.caddr[c]); self.up.add(c)
        else:
            self.op('ld', p=self.caddr[c], d=self.bs(r.choice([1, 2, 7, 9, 12, 30])))

    def step_server(self):
        r = self.r
        live = [k for k in self.conns]
        k = r.choices(['acc', 'sd', 'ans', 'tick', 'long', 'fault', 'x', 'quick'], [8 if len(live) < 5 else 1, 30, 28, 8, 5, 5, 3, 6])[0]
        if not live and k in ('sd', 'ans', 'fault', 'quick'): k = 'acc'
        if k == 'acc':
            s = r.choice(list(self.saddr))
            f = r.random()
            if f < .06: self.op('accf', a=self.saddr[s]); return
            if f < .10: self.op(r.choice(['xl', 'xt'])); self.op('acc', a=self.saddr[s]); return
            self.op('acc', a=self.saddr[s])
            self.conns[self.nk] = None; self.nk += 1
        elif k in ('sd', 'quick'):
            idle = [y for y in live if not isinstance(self.conns[y], dict)]
            if not idle and r.random() < .8: return self.answer(r.choice(live))
            x = r.choice(idle) if idle and r.random() < .93 else r.choice(live)
            b, q = self.adu(r.choice([None, None, 1, 2]))
            b = b[:250]
            ch = self.chunks(b)
            if len(ch) > 1 and r.random() < .08: ch = ch[:-1]
            for i, y in enumerate(ch):
                if i and r.random() < .2: self.op('tick', n=r.choice([1, 10, 2999]))
                self.op('sd', k=x, d=y)
            if self.conns[x] is None or self.conns[x] == 'old': self.conns[x] = q
            if k == 'quick': self.answer(x)
        elif k == 'ans':
            w = [x for x in live if isinstance(self.conns[x], dict)]
            if w and not self.conns[w[0]]['good'] and r.random() < .95:
                self.op('tick', n=500)
                for x in w: self.conns[x] = 'old'
                return
            self.answer(r.choice(w) if w and r.random() < .9 else r.choice(live))
        elif k == 'tick': self.op('tick', n=r.choice([1, 1, 5]))
        elif k == 'long':
            n = r.choice([498, 499, 500, 501, 2499, 2500, 2999, 3000, 3001, 3499, 3500])
            self.op('tick', n=n)
            if n >= 500:
                for x in live:
                    if self.conns[x] is not None: self.conns[x] = 'old' if self.conns[x] == 'old' else self.conns[x]
        elif k == 'fault':
            x = r.choice(live)
            f = r.choice(['seof', 'sle', 'ssf'])
            self.op(f, k=x)
            if f != 'ssf' and r.random() < .6: self.conns.pop(x)
        else:
            self.op('arspx', sv=r.choice([0, 0, 1, 5, 1000]), sid=r.choice([0, 1, 2, 255, 256, 257, 65535]), tid=r.randrange(4), e=r.choice([0, 2]),
                    st=0, d=self.bs(r.choice([0, 2])))

    def answer(self, x):
        r = self.r
        q = self.conns.get(x)
        if isinstance(q, dict) and not q['good']:
            if r.random() < .9: self.op('tick', n=r.choice([499, 500, 501])); self.conns[x] = 'old'; return
        if not isinstance(q, dict): q = dict(tid=r.randrange(3), f=3)
        f, tid, e, st = q['f'], q['tid'], 0, 0
        if f in F_READREGS: d = self.bs(2 * r.choice([0, 1, 2, 3, 125, r.randrange(126)]))
        elif f == 5: d = r.choice([[0, 255], [0, 0]])
        elif f == 6: d = self.bs(2)
        else: d = []
        k = r.random()
        if k < .1: tid = (tid + r.choice([1, 256, 65535, 128])) & 0xffff
        elif k < .2: e = r.choice([1, 2, 3, 4, 5, 6, 8, 10, 11]); d = d if r.random() < .5 else []
        elif k < .26: st = 1
        elif k < .34:
            d = self.bs(r.choice([0, 1, 2, 3, 4, 5, 249, 250, 251, 252, 260, 261, 262, 300]))
        elif k < .37: d = self.bs(2)
        self.op('arsp', k=x, tid=tid, e=e, st=st, d=d)
        if x in self.conns and isinstance(self.conns[x], dict): self.conns[x] = 'old'

    def step_admin(self):
        r = self.r
        k = r.randrange(10)
        if k < 5:
            items = []
            for _ in range(r.choice([1, 1, 2, 3])):
                if (r.random() < .5 and self.nc) or not self.ns:
                    c = r.choice(list(range(self.nc)) + [self.nc, 99])
                    items.append(dict(m='c', id=c, a=c + 1 if c < self.nc else 50))
                    if c < self.nc: self.down(c)
                else:
                    s = r.choice(list(range(self.ns)) + [self.ns, 99])
                    items.append(dict(m='s', id=s, a=9 + s if s < self.ns else 51))
            if r.random() < .15: self.op(r.choice(['xl', 'xt']))
            self.op('cfg', items=items)
            for it in items:
                if it['m'] == 'c' and it['id'] < self.nc and r.random() < .8: self.op('lc', p=it['a']); self.up.add(it['id'])
        elif k < 7:
            self.op('rel')
            if r.random() < .5:
                self.op('req', items=[self.request(0)])
                self.op('cfg', items=[dict(m='c', id=0, a=1)])
                self.op('arspx', sv=0, sid=0, tid=0, e=0, st=0, d=[])
            nk = self.nk
            self.setup(self.nc, self.ns); self.nk = nk
        elif k < 8:
            nk = self.nk
            self.setup(r.choice([0, 1, 2, 3]) or (0 if self.ns else 1), self.ns); self.nk = nk
        else:
            self.op('rel'); self.op('rel')
            nk = self.nk
            self.setup(self.nc, self.ns); self.nk = nk


def client_history(rng, n):
    g = G(rng, None)
    g.setup(rng.choice([1, 1, 2, 3]), 0)
    while len(g.ops) < n: g.step_client()
    return g.ops


def server_history(rng, n):
    g = G(rng, None)
    g.setup(0, rng.choice([1, 1, 2]))
    for _ in range(rng.choice([1, 2, 3])):
        g.op('acc', a=rng.choice(list(g.saddr.values()))); g.conns[g.nk] = None; g.nk += 1
    while len(g.ops) < n: g.step_server()
    return g.ops


def mixed_history(rng, n):
    g = G(rng, None)
    g.setup(rng.choice([1, 2]), rng.choice([0, 1, 2]))
    while len(g.ops) < n:
        k = rng.random()
        if k < .12: g.step_admin()
        elif k < .6 and g.nc or not g.ns: 
            if g.nc: g.step_client()
        else: g.step_server()
    return g.ops


def many_sessions(rng):
    """more connections than a server has sessions"""
    g = G(rng, None)
    g.setup(0, 1)
    for _ in range(258): g.op('acc', a=9); g.conns[g.nk] = None; g.nk += 1
    for k in rng.sample(range(256), 3):
        b, q = g.adu(5); g.op('sd', k=k, d=b[:250]); g.conns[k] = q; g.answer(k)
    g.op('seof', k=0); g.op('sle', k=5)
    for _ in range(3): g.op('acc', a=9)
    g.op('tick', n=2999); g.op('tick', n=1); g.op('tick', n=600); g.op('tick', n=3000); g.op('acc', a=9)
    g.op('rel')
    return g.ops


def churn(rng, m):
    """sessions end in the same way more often than there are sessions"""
    g = G(rng, None)
    g.setup(0, 1)
    k = 0
    rq = [0, 1, 0, 0, 0, 6, 1, 3, 0, 0, 0, 1]
    for n in range(260 + rng.randrange(20)):
        if m == 0: g.op('accf', a=9); continue
        if m in (1, 2): g.op(['xl', 'xt'][m - 1]); g.op('acc', a=9); continue
        g.op('acc', a=9)
        if m == 3: g.op('sle', k=k)
        elif m == 4: g.op('seof', k=k)
        elif m == 5: g.op('sd', k=k, d=[0, 1, 0, 0, 255, 255, 1])
        elif m == 6: g.op('tick', n=3000)
        elif m == 7:
            g.op('sd', k=k, d=rq); g.op('ssf', k=k); g.op('arsp', k=k, tid=1, e=0, st=0, d=[1, 2])
        elif m == 8: g.op('sd', k=k, d=rq); g.op('sle', k=k)
        elif m == 9: g.op('sd', k=k, d=rq); g.op('seof', k=k)
        elif m == 10: g.op('sd', k=k, d=rq); g.op('tick', n=500); g.op('tick', n=3000)
        elif m == 11:
            if n % 16 == 15: g.op('cfg', items=[dict(m='s', id=0, a=9)])
        k += 1
    g.op('acc', a=9); g.op('sd', k=k, d=rq); g.op('arsp', k=k, tid=1, e=0, st=0, d=[1, 2])
    return g.ops


def churner(m):
    return lambda rng: churn(rng, m)


def long_client(rng):
    """more requests through one client than its queue has room for"""
    g = G(rng, None)
    g.setup(1, 0)
    n = 0
    while n < 150:
        its = [g.request(0) for _ in range(rng.choice([1, 2, 3, 5, 20]))]
        for q in its: q['d'] = q['d'][:10]
        g.op('req', items=its); n += len(its)
        if 0 in g.up: g.q[0] += its
        while g.q[0] or g.out[0]:
            if g.out[0] is None: g.tick(1)
            q = g.out[0]
            if q is None: continue
            x = rng.random()
            if x < .85: g.op('ld', p=1, d=g.response(q)[:250]); g.out[0] = None
            elif x < .9: g.tick(500)
            elif x < .92: g.op('le', p=1); g.down(0); g.tick(50); g.op('lc', p=1); g.up.add(0)
            else: break
    g.tick(50); g.op('lc', p=1); g.up.add(0)
    return g.ops
