"""Random histories of the reactor."""


def clk(rng):
    return {'op': 'clk', 'ns': rng.choice([0, 1000, 500000000, 999000000, 999999000, 999998000, rng.randrange(1000000) * 1000])}


def payload(rng):
    n = rng.choice([1, 2, 3, 5, 12, 64, 260])
    return [rng.randrange(256) for _ in range(n)]


def messages(rng, n):
    """Handlers come and go; bursts up to and beyond the capacity; failing and sending handlers."""
    ops, v = [clk(rng)], 0
    for _ in range(n):
        k = rng.random()
        if k < 0.25:
            ops.append({'op': 'reg', 'm': rng.randrange(1, 5), 'tag': rng.randrange(1, 9), 'vec': rng.randrange(2)})
        elif k < 0.9:
            q = []
            cnt = rng.choice([1, 1, 2, 3, 5, 10, 30, 63, 64, 65, 70])
            for _ in range(cnt):
                v += 1
                act = rng.choice([0, 0, 0, 0, 1, 2, 3]) if cnt < 20 or rng.random() < 0.05 else 0
                m = rng.randrange(1, 5)
                nn = rng.choice([1, 2, 3, 40]) if act == 2 else (m % 4 + 1 if act == 3 else 0)
                ln = rng.choice([56, 64, 64, 100, 1000, 4088, 4095, 4096, 4097, 5000]) if cnt < 20 else 64
                q.append({'m': m, 'len': ln, 'v': v, 'act': act, 'n': nn})
            ops.append({'op': 'snd', 'q': q})
            v += 150
        elif k < 0.95:
            ops.append({'op': 'madd', 'c': rng.randrange(0, 5), 'r': rng.randrange(3)})
        else:
            ops.append({'op': 'msend', 'c': rng.randrange(0, 6), 'm': rng.randrange(1, 5), 'v': v})
    return ops


def routing(rng, n=30):
    ops = [clk(rng)]
    for k in range(n):
        if rng.random() < 0.3:
            ops.append({'op': 'madd', 'c': rng.randrange(0, 8), 'r': rng.randrange(4)})
        else:
            ops.append({'op': 'msend', 'c': rng.randrange(0, 9), 'm': rng.randrange(1, 5), 'v': k})
    return ops


def burst(rng):
    t = rng.choice([2, 3, 4])
    return [clk(rng), {'op': 'burst', 't': t, 'per': rng.choice([60, 120, 150]), 'len': rng.choice([1, 400, 4000])},
            {'op': 'reg', 'm': 1, 'tag': 1}, {'op': 'snd', 'q': [{'m': 1, 'len': 64, 'v': 1, 'act': 0, 'n': 0}]},
            {'op': 'burst', 't': t, 'per': 80, 'len': 64}]


def threaded(rng):
    return [clk(rng), {'op': 'thr', 't': rng.choice([1, 2, 3]), 'per': rng.choice([5, 40, 100])}]


def timers(rng, n):
    ops = [clk(rng), {'op': 'reg', 'm': 1, 'tag': 1}]
    ids = [1, 2, 3, 4, 5]
    spans = rng.choice([[1, 5, 10, 20], [1000, 10000, 10000000, 30000000], [1, 999, 1000, 1001, 999999, 1000000, 1000001],
                        [2000000, 5000000, 500000]])
    live = set()

    def acts():
        a = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            k = rng.choice(['ts', 'ts', 'tx', 'td', 'tc', 'throw', 'snd'])
            t = rng.choice(ids)
            if k == 'ts':
                a.append({'k': k, 't': t, 'us': max(1, max(spans) // 10, rng.choice(spans))})
            elif k == 'snd':
                a.append({'k': k, 'm': 1, 'v': rng.randrange(100)})
            elif k == 'throw':
                a.append({'k': k})
            else:
                a.append({'k': k, 't': t})
        return a

    def one():
        k = rng.random()
        t = rng.choice(ids)
        if k < 0.15 or not live:
            live.add(t)
            return {'op': 'tc', 't': t}
        if k < 0.65:
            t = rng.choice(sorted(live))
            return {'op': 'ts', 't': t, 'us': rng.choice(spans)}
        if k < 0.75:
            return {'op': 'tx', 't': t}
        if k < 0.8:
            live.discard(t)
            return {'op': 'td', 't': t}
        return {'op': 'ta', 't': rng.choice(sorted(live)), 'acts': acts()}

    for _ in range(n):
        k = rng.random()
        if k < 0.4:
            ops.append({'op': 'adv', 'us': rng.choice(spans + [x - 1 for x in spans if x > 1]), 'late': int(rng.random() < 0.3)})
        elif k < 0.5 and live:
            t = rng.choice(sorted(live))
            sub = [{'op': 'ts', 't': t, 'us': 0}]
            for _ in range(rng.randrange(3)):
                x = one()
                if x.get('t') != t or x['op'] in ('tx', 'ta'):
                    sub.append(x)
            if rng.random() < 0.5:
                sub.append({'op': 'snd', 'q': [{'m': 1, 'len': 64, 'v': 5, 'act': rng.randrange(2), 'n': 0}]})
            ops.append({'op': 'seq', 'ops': sub})
        else:
            ops.append(one())
    return ops


class Net:
    """Keeps enough of the state to stay clear of what TCP leaves open (see DESIGN.md)."""

    def __init__(self, rng, faults):
        self.rng, self.faults = rng, faults
        self.lis, self.links, self.acc, self.peers = [], {}, {}, {}
        self.c, self.nl = 100, 10
        self.fl = 0
        self.flt = set()

    def op(self):
        rng = self.rng
        ch = []
        up = [l for l, c in self.links.items() if c in self.peers]
        idle = [l for l, c in self.links.items() if c is None]
        ch += ['lnew', 'lconn', 'lconn', 'anew', 'alisten', 'pconn', 'pconn']
        if up:
            ch += ['lsend', 'pw', 'pw', 'lrecv', 'pclose', 'prst', 'lclose', 'ldel', 'lsend', 'pw', 'seq']
        if self.links:
            ch += ['ldel', 'lrecv', 'lconn2']
        if self.acc:
            ch += ['adel', 'aclose', 'same']
        if self.faults:
            ch += ['flt', 'flt', 'tc', 'fill', 'once', 'once', 'once']
        k = rng.choice(ch)
        if not self.lis:
            self.lis = [1]
            return {'op': 'plis', 'p': 1}
        conf = lambda: dict(rd=rng.choice([0, 1, 1, 1]), end=rng.choice(['', 'del']), dat=rng.choice(['', '', 'echo', 'throw']))
        if k == 'lnew':
            l = rng.randrange(1, 6)
            if l in self.links:
                return None
            self.links[l] = None
            return dict(op='lnew', l=l, **conf())
        if k == 'lconn':
            if not idle:
                return None
            l = rng.choice(idle)
            self.c += 1
            p = rng.choice([1, 1, 1, 9])
            if p == 1 and not self.flt & {'socket', 'connect', 'epoll'}:
                self.peers[self.c] = l
                self.links[l] = self.c
            return dict(op='lconn', l=l, p=p, c=self.c, d=payload(rng) if rng.random() < 0.3 else [])
        if k == 'lconn2':
            if not up:
                return None
            self.c += 1
            return dict(op='lconn', l=rng.choice(up), p=1, c=self.c)
        if k == 'lsend':
            return dict(op='lsend', l=rng.choice(up), d=payload(rng))
        if k == 'pw':
            return dict(op='pw', c=self.links[rng.choice(up)], d=payload(rng))
        if k == 'lrecv':
            return dict(op='lrecv', l=rng.choice(sorted(self.links)), n=rng.choice([0, 1, 2, 4, 300]))
        if k in ('pclose', 'prst'):
            l = rng.choice(up)
            c = self.links[l]
            del self.peers[c]
            # after this the link may still be there: closed, reset or deleted, according to its handler
            self.links[l] = 'gone'
            self.pending = l
            return dict(op=k, c=c)
        if k in ('lclose', 'ldel'):
            l = rng.choice(sorted(self.links))
            c = self.links[l]
            if c in self.peers:
                self.peers[c] = None
                del self.peers[c]
            if k == 'ldel':
                del self.links[l]
            else:
                self.links[l] = None
            return dict(op=k, l=l)
        if k == 'anew':
            a = rng.randrange(1, 4)
            if a in self.acc:
                return None
            self.acc[a] = False
            return dict(op='anew', a=a)
        if k == 'alisten':
            if not self.acc:
                return None
            a = rng.choice(sorted(self.acc))
            return dict(op='alisten', a=a)
        if k == 'same':
            x = rng.choice(sorted(self.acc))
            y = rng.choice(sorted(self.acc))
            return dict(op='alisten', a=x, same=y) if x != y else None
        if k == 'aclose':
            return dict(op='aclose', a=rng.choice(sorted(self.acc)))
        if k == 'adel':
            a = rng.choice(sorted(self.acc))
            del self.acc[a]
            return dict(op='adel', a=a)
        if k == 'pconn':
            if not self.acc or self.fl:
                return None
            self.c += 1
            self.nl += 1
            a = rng.choice(sorted(self.acc))
            if self.nl > 30:
                return None
            self.links[self.nl] = self.c
            self.peers[self.c] = self.nl
            return dict(op='pconn', a=a, c=self.c, l=self.nl, d=payload(rng) if rng.random() < 0.4 else [], **conf())
        if k == 'seq' and len(up) >= 2:
            x, y = rng.sample(up, 2)
            cx, cy = self.links[x], self.links[y]
            del self.links[y]
            del self.peers[cy]
            return dict(op='seq', ops=[dict(op='pw', c=cx, d=payload(rng)), dict(op='pw', c=cy, d=payload(rng)), dict(op='ldel', l=y)])
        if k == 'flt':
            call = rng.choice(['epoll', 'timerfd', 'socket', 'connect', 'listen', 'accept'])
            self.flt.add(call)
            return dict(op='flt', call=call, n=rng.choice([1, 1, 1, 2, 0]))
        if k == 'once':
            # a call that fails in the next operation only
            call = rng.choice(['mod', 'fcntl', 'fcntl', 'bind', 'sockopt', 'send', 'part'])
            off = dict(op='flt', call=call, n=0)
            on = dict(op='flt', call=call, n=1)
            self.c += 1
            if call in ('send', 'part'):
                return [on, dict(op='lsend', l=rng.choice(up), d=payload(rng)), off] if up else None
            if call in ('bind', 'sockopt'):
                return [on, dict(op='alisten', a=rng.choice(sorted(self.acc))), off] if self.acc else None
            if call == 'mod' or rng.random() < .5:
                return [on, dict(op='lconn', l=rng.choice(idle), p=1, c=self.c, d=payload(rng) if rng.random() < .3 else []), off] if idle else None
            return [on, dict(op='pconn', a=rng.choice(sorted(self.acc)), c=self.c, l=40 + self.nl, d=[], **conf()), off] if self.acc and not self.fl else None
        if k == 'tc':
            t = rng.randrange(1, 5)
            return dict(op=rng.choice(['tc', 'tc', 'td']), t=t)
        if k == 'fill':
            w = rng.choice(['t', 'l', 'a'])
            full = rng.random() < 0.6
            if w == 'l':
                self.fl = 1 if full else 0
            return dict(op=w + 'fill', n=rng.choice([1, 5, 32, 40])) if full else dict(op=w + 'empty')
        return None


def network(rng, n, faults=False):
    g = Net(rng, faults)
    ops = [clk(rng)]
    while len(ops) < n:
        o = g.op()
        if isinstance(o, list):
            ops.extend(o)
        elif o:
            ops.append(o)
            if o['op'] in ('pclose', 'prst'):
                ops.append({'op': 'ldel', 'l': g.pending})
                g.links.pop(g.pending, None)
    return ops


def pools(rng):
    """Fill and drain every pool again and again, with failing creations in between."""
    ops = [clk(rng)]
    for _ in range(rng.choice([3, 5])):
        w = rng.choice('tla')
        if rng.random() < 0.5:
            ops.append(dict(op='flt', call=rng.choice(['epoll', 'timerfd']), n=rng.choice([1, 3, 10])))
        ops.append(dict(op=w + 'fill', n=rng.choice([1, 31, 32, 33, 64])))
        ops.append(dict(op={'t': 'tc', 'l': 'lnew', 'a': 'anew'}[w], **{{'t': 't', 'l': 'l', 'a': 'a'}[w]: 1}))
        ops.append(dict(op=w + 'empty'))
        ops.append(dict(op='flt', call='epoll', n=0))
        ops.append(dict(op='flt', call='timerfd', n=0))
        ops.append(dict(op=w + 'fill', n=40))
        ops.append(dict(op=w + 'empty'))
    return ops
