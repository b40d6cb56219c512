"""Scripts for the deployed application: starts and stops at any moment of its threads, clients of both servers, a cut connection of
its own Modbus client, an end of the whole at any moment. What must happen is decided by the specification."""
import gen_ua as ua

NET = 9                      # the network takes a turn, not a thread
CONN, MB, UA, CTL = 0, 1, 2, 3


def o(op, **kw):
    return dict(op=op, **kw)


class App:
    def __init__(self, rng):
        self.r, self.ops, self.nk, self.ua, self.mb, self.rid = rng, [], 0, {}, {}, 1
        self.on = False

    def put(self, op, **kw):
        d = op if isinstance(op, dict) else o(op, **kw)
        if d['op'] not in ('boot', 'halt'):
            d['seed'] = self.r.randrange(1, 1 << 20)
        self.ops.append(d)

    def boot(self):
        if self.r.random() < .04:
            self.put('boot', nocpu=self.r.randrange(4))
        self.put('boot')
        self.on = False

    def turns(self):
        r = self.r
        return [r.choice([MB, UA, CTL, CTL, NET]) for _ in range(r.choice([0, 0, 1, 2, 3, 4, 6, 10]))]

    def cmd(self, op, g=None):
        self.put(op, **({} if g is None else dict(g=g)))
        if op == 'stop':
            self.ua, self.mb = {}, {}
        self.on = op == 'start'

    def adv(self, n):
        self.put('adv', n=n)

    # ---- clients
    def dial(self, to):
        k = self.nk
        self.nk += 1
        self.put('dial', k=k, to=to)
        if to == 'ua':
            self.ua[k] = dict(st='new', seq=0)
        else:
            self.mb[k] = 0
        return k

    def mbreq(self, k):
        r = self.r
        tid = r.choice([0, 1, 2, 3, 3, 4, 7, 8, 10, 11, 12, 15, 16, 300, r.randrange(65536)])
        f = r.choice([3, 4, 4, 6, 16, 16, r.choice([1, 2, 5, 7, 99, 131])])
        si = r.choice([0, 1, 190, 256, 890, 900, 1000, 1023, 1024, r.randrange(65536)])
        ni = r.choice([1, 1, 2, 10, 24, 100, 120, 125, 126, 0, r.randrange(65536)])
        b = [1 if r.random() < .9 else r.randrange(256), f, si >> 8, si & 255]
        if f == 6:
            b += [r.randrange(256), r.randrange(256)]
        elif f == 16:
            ni = r.choice([1, 2, 10, 60, 120, 121])
            n = 2 * ni if r.random() < .9 else r.randrange(1, 250)
            b += [ni >> 8, ni & 255, min(n, 255)] + [r.randrange(256) for _ in range(min(n, 245))]
        else:
            b += [ni >> 8, ni & 255]
        if r.random() < .05:
            b = b[:r.randrange(1, len(b))]
        d = [tid >> 8, tid & 255, 0, 0, len(b) >> 8, len(b) & 255] + b
        if r.random() < .04:
            d[r.randrange(2, 6)] ^= 1 << r.randrange(8)
        if self.mb[k] + len(d) > 255:                       # a server that waits for the application takes no more than one message
            self.adv(51)
            self.mb = {x: 0 for x in self.mb}
        self.mb[k] += len(d)
        c = r.randrange(1, len(d)) if r.random() < .15 else len(d)
        self.put('d', k=k, d=d[:c])
        if c < len(d):
            if r.random() < .3:
                self.adv(r.choice([1, 10]))
            self.put('d', k=k, d=d[c:])

    def uasay(self, k):
        r, c = self.r, self.ua[k]
        self.rid += 1
        h = r.choice([0, 1, 7, self.rid, r.randrange(1 << 32)])
        if c['st'] == 'new':
            if r.random() < .94:
                self.put('d', k=k, d=ua.hello())
                c['st'] = 'hel'
            else:
                self.put('d', k=k, d=ua.opn(k, 1, 1, 1)['d'])
                self.ua.pop(k)
        elif c['st'] == 'hel' or r.random() < .06:
            c['seq'] = r.choice([0, 1, 1, 51, 0xffffffff])
            self.put(ua.opn(k, c['seq'], self.rid, h, life=r.choice([3600, 0, 600000])))
            c['st'] = 'open'
        elif r.random() < .07:
            self.put(ua.clo(k, (c['seq'] + 1) % 2 ** 32, self.rid, h))
            self.ua.pop(k)
        elif r.random() < .05:
            self.put(ua.msg(k, 'gep', (c['seq'] + r.choice([0, 2, 7])) % 2 ** 32, self.rid, h))
            self.ua.pop(k)
        else:
            c['seq'] = (c['seq'] + 1) % 2 ** 32
            svc = {'open': 'create', 'create': 'activate', 'activate': 'read', 'read': 'close', 'close': 'create'}[c['st']]
            if r.random() < .35:
                svc = r.choice(['gep', 'create', 'activate', 'read', 'close'])
            if svc in ('activate', 'close') and c['st'] == 'open':
                svc = 'gep'
            self.put(ua.msg(k, svc, c['seq'], self.rid, h))
            if svc != 'gep':
                c['st'] = svc

    def client(self):
        r = self.r
        both = [(k, 'ua') for k in self.ua] + [(k, 'mb') for k in self.mb]
        if (not both or r.random() < .15) and self.nk < 28:
            return self.dial(r.choice(['ua', 'mb']))
        if not both:
            return
        k, t = r.choice(both)
        if r.random() < .05:
            self.put(r.choice(['eof', 'rst']), k=k)
            (self.ua if t == 'ua' else self.mb).pop(k)
        elif t == 'ua':
            for _ in range(r.choice([1, 2, 4])):
                if k in self.ua:
                    self.uasay(k)
        else:
            for _ in range(r.choice([1, 1, 2])):
                self.mbreq(k)


def life(rng, n):
    """starts and stops at any moment"""
    a = App(rng)
    a.boot()
    for _ in range(n):
        x = rng.random()
        if x < .55:
            for _ in range(rng.choice([1, 1, 2, 3])):
                a.cmd(rng.choice(['start', 'stop']) if rng.random() < .4 else 'stop' if a.on else 'start', a.turns() if rng.random() < .7 else None)
            if a.ops[-1].get('g') is not None:
                a.adv(rng.choice([1, 1, 5, 19, 20, 21, 30, 75]))
        elif x < .8:
            a.adv(rng.choice([1, 4, 5, 6, 15, 20, 21, 30, 75]))
        elif x < .93:
            a.dial(rng.choice(['ua', 'mb']))
            if rng.random() < .5:
                a.client()
        elif x < .96:
            a.put('cut')
        else:
            if rng.random() < .6:
                a.cmd(rng.choice(['start', 'stop']), a.turns())
            a.put('halt')
            a.ua, a.mb = {}, {}
            a.boot()
    if rng.random() < .6:
        a.cmd(rng.choice(['start', 'stop']), a.turns())
    a.put('halt')
    return a.ops


def serve(rng, n):
    """clients of a running application"""
    a = App(rng)
    a.put('boot')
    a.cmd('start')
    a.adv(rng.choice([1, 10, 19, 20, 21, 25, 40]))
    for _ in range(n):
        x = rng.random()
        if x < .8:
            a.client()
        elif x < .92:
            a.adv(rng.choice([1, 1, 5, 10, 49, 50, 51, 60, 100, 301]))
        elif x < .96:
            a.put('cut')
        else:
            a.cmd('stop')
            if rng.random() < .5:
                a.adv(rng.choice([1, 20]))
            a.client()
            a.cmd('start')
            a.adv(rng.choice([1, 20, 25]))
    a.put('halt')
    return a.ops


def concrete(ops):
    """a script of MCSystem"""
    return [o('boot')] + [dict(x, seed=7 + 13 * i) for i, x in enumerate(ops)] + [o('halt')]
