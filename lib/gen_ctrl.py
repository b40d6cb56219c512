"""Scripts for the controller: starts, stops, confirmations and answers in all orders, requests of Modbus clients to its registers."""
import ctypes

_c = ctypes.CDLL(None)
_c.srand(0)
RV = [(_c.rand() % 65535) & 255 for _ in range(2048)]
ROOM = 2048
# client, device, function, first item, items, data bytes, error, ok
CASES = [(0, 1, 16, 890, 120, 240, 0, 1), (0, 1, 4, 0, 126, 0, 0, 0), (0, 1, 4, 10, 10, 0, 4, 1), (0, 1, 4, 890, 120, 0, 0, 1),
         (0, 1, 6, 190, 0, 2, 0, 1), (0, 1, 6, 190, 10, 2, 0, 0), (0, 1, 6, 190, 0, 0, 0, 0), (0, 1, 16, 890, 120, 240, 0, 1),
         (0, 1, 16, 256, 1, 2, 0, 1), (0, 1, 16, 256, 1, 4, 0, 0), (0, 1, 4, 10, 125, 0, 0, 1), (0, 1, 4, 0, 0, 0, 0, 1),
         (99, 1, 4, 10, 125, 0, 0, 0), (0, 1, 99, 10, 125, 0, 0, 0), (0, 248, 4, 10, 125, 0, 0, 0), (0, 1, 6, 190, 0, 2, 0, 0)]
BOOT = dict(op='boot')
UA = ['sinit', 'tinit', 'vinit']
REST = ['mrel', 'scfg', 'srel', 'tcfg', 'trel', 'vcfg', 'vrel']


def o(op, **kw):
    return dict(op=op, **kw)


class Ctl:
    """a guess of the registers, good enough to send right answers"""
    def __init__(self):
        self.ops = [BOOT]
        self.fresh()

    def fresh(self):
        self.tab = [list(RV) for _ in CASES]

    def areq(self, tid, f, si, ni, d=(), sv=0, sid=0, a=1):
        self.ops.append(o('areq', tid=tid, f=f, si=si, ni=ni, d=list(d), sv=sv, sid=sid, a=a))
        if f in (6, 16) and tid < 16 and 2 * si + max(2 * ni, len(d)) <= ROOM:
            self.tab[tid][2 * si:2 * si + len(d)] = d

    def served(self, tid):
        """the request of a test as it arrives at the server"""
        cid, a, f, si, ni, n, _, ok = CASES[tid]
        if tid in (0, 2, 3, 4, 7, 8, 10, 11, 15):
            self.areq(tid, f, si, ni, RV[:n])

    def right(self, tid):
        cid, a, f, si, ni, n, err, ok = CASES[tid]
        d = []
        if ok and not err:
            d = self.tab[tid][2 * si:2 * si + 2 * ni] if f in (3, 4) else RV[:2] if f == 6 else []
        return o('crsp', cid=cid, tid=tid, err=err, st=ok, d=d)

    def up(self):
        self.fresh()
        self.ops += [o('start'), o('minit'), o('mcfg')]

    def round(self, order=None, serve=True):
        order = order or list(range(16))
        for t in order:
            if serve:
                self.served(t)
            self.ops.append(self.right(t))


def wrong(r, c, tid):
    """not quite the right answer"""
    x = c.right(tid)
    d = list(x['d'])
    k = r.choice(['tid', 'cid', 'err', 'st', 'len', 'bit', 'far', 'ok', 'ok'])
    if k == 'tid':
        x['tid'] = r.choice([16, 17, 255, 65535, (tid + 1) % 16, tid + 256])
    elif k == 'cid':
        x['cid'] = r.choice([1, 98, 100, 255, 256 + x['cid'], 65535])
    elif k == 'err':
        x['err'] = r.choice([e for e in (0, 1, 2, 3, 4) if e != x['err']])
    elif k == 'st':
        x['st'] = 1 - x['st']
    elif k == 'ok':                       # a success, complete with its data
        cid, a, f, si, ni, n, err, ok = CASES[tid]
        x['st'], x['err'] = 1, r.choice([err, 0])
        x['d'] = c.tab[tid][2 * si:2 * si + 2 * ni] if f in (3, 4) else RV[:2] if f == 6 else []
    elif k == 'len':
        x['d'] = d[:-1] if d and r.random() < .5 else d + [0] * r.choice([1, 2])
    elif k == 'bit' and d:
        p = r.choice([0, len(d) - 1, r.randrange(len(d))])
        d[p] ^= 1 << r.randrange(8)
        x['d'] = d
    elif k == 'far' and d:
        x['d'] = d[2:] + d[:2]
    return x


def request(r, c):
    """of a Modbus client to the registers"""
    tid = r.choice([r.randrange(16)] * 8 + [16, 17, 255, 256, 65535])
    f = r.choice([3, 4, 4, 6, 16, 16, 1, 2, 5, 99])
    si = r.choice([0, 1, 10, 190, 191, 256, 890, 889, 1009, 1023, 1024, 1025, 65535, r.randrange(1100)])
    ni = r.choice([0, 1, 2, 10, 120, 125, 126, 1024, 1025, 65535, 1024 - min(si, 1024), 1025 - min(si, 1025)])
    if f in (3, 4) and si + ni <= 1024:
        ni = min(ni, 120)
    n = r.choice([0, 2, 4, 240, 2 * min(ni, 120)]) if f in (6, 16, 5, 99) else 0
    c.areq(tid, f, si, ni, [r.randrange(256) for _ in range(n)], sv=r.choice([0, 0, 1, 7, 65535]), sid=r.choice([0, 0, 1, 5, 255, 65535]), a=r.choice([1, 1, 9]))


def life(rng, n):
    """starts, stops and confirmations in any order"""
    r, c = rng, Ctl()
    while len(c.ops) < n:
        x = r.random()
        if x < .12:
            c.fresh()
            c.ops.append(o('start'))
        elif x < .2:
            c.ops.append(o('stop'))
        elif x < .3:
            c.ops.append(o('minit'))
        elif x < .38:
            c.ops.append(o('mcfg'))
        elif x < .6:
            c.ops.append(o(r.choice(UA)))
        elif x < .72:
            c.ops.append(o(r.choice(REST)))
        elif x < .76:
            c.ops.append(o(r.choice(['conn', 'det'])))
        elif x < .82:
            c.ops.append(o('tick', n=r.choice([1, 9, 10, 11, 50, 3000])))
        elif x < .86:
            request(r, c)
        elif x < .92:
            c.ops.append(c.right(r.randrange(16)))
        elif x < .96:
            c.up()
        else:
            c.up()
            c.round(serve=r.random() < .9)
            c.ops.append(o('tick', n=r.choice([1, 9, 10, 11])))
    return c.ops


def test(rng, n):
    """rounds of the self-test, mostly right"""
    r, c = rng, Ctl()
    c.up()
    while len(c.ops) < n:
        order = list(range(16))
        if r.random() < .4:
            r.shuffle(order)
        bad = r.choice([None, None, r.randrange(16)])
        for j, t in enumerate(order):
            while r.random() < .15:
                request(r, c)
            if r.random() < .97 or t in (0, 4, 7, 8):
                c.served(t)
            if j == bad:
                c.ops.append(wrong(r, c, t))
            elif r.random() < .03:
                c.ops.append(c.right(order[r.randrange(16)]))     # another one instead
            else:
                c.ops.append(c.right(t))
            if r.random() < .01:
                c.ops.append(o(r.choice(['stop', 'tick', 'minit', 'mcfg', 'mrel']), n=r.choice([1, 10])))
        y = r.random()
        if y < .15:
            c.ops.append(c.right(r.randrange(16)))
            request(r, c)
        c.ops += [o('tick', n=k) for k in r.choice([[10], [9, 1], [9, 2], [11], [4, 5], [5000]])]
        if y > .85 or bad is not None and r.random() < .8:
            c.ops += [o('stop')] * r.choice([0, 1])
            c.up()
    return c.ops


def concrete(ops):
    c = Ctl()
    for x in ops:
        if x['op'] == 'start':
            c.fresh()
        if x['op'] == 'round':
            for t in range(16):
                c.served(t)
                y = c.right(t)
                if t == 15 and not x['good']:
                    y['st'] = 1 - y['st']
                c.ops.append(y)
        else:
            c.ops.append(x)
    return c.ops
