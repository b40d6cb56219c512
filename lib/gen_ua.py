"""Scripts for the OPC UA server: what clients send, when messages between the components are delivered, what fails. Ids chosen by
the server are put in by the driver ("sub"). What must happen is decided by the specification."""
import uawire as w

le, length = w.le, w.length
SVC = dict(gep=428, create=461, activate=467, close=473, read=631)
NONE = [ord(c) for c in 'http://opcfoundation.org/UA/SecurityPolicy#None']
B4 = lambda n: [(n >> s) & 255 for s in (24, 16, 8, 0)]
NOSID = [127, 255, 255, 255]


def s_(b):
    return length(len(b)) + list(b) if b else length(-1)


def size(f):
    f[4:8] = le(len(f), 4)
    return f


def hello(rng=None):
    url = s_(b'opc.tcp://x:1') if rng is None else w.string(rng)
    return size([72, 69, 76, 70] + [0] * 4 + le(0, 4) + le(65536, 4) * 2 + le(0, 4) * 2 + url)


def reqhdr(h, auth=None):
    """token, timestamp, handle, diagnostics, audit id, timeout, additional header"""
    return (auth if auth is not None else [0, 0]) + [1] * 8 + le(h, 4) + le(0, 4) + s_([]) + le(1000, 4) + [0, 0, 0]


def opnbody(seq, rid, h, life=3600, kind=0, policy=NONE):
    return s_(policy) + s_([]) + s_([]) + le(seq, 4) + le(rid, 4) + w.nodeid_of(446) + reqhdr(h) + le(0, 4) + le(kind, 4) + le(1, 4) + s_([]) + le(life, 4)


def body(svc, h, auth=None, rng=None):
    r = reqhdr(h, auth)
    t = w.nodeid_of(SVC[svc])
    if rng is not None and svc in ('create', 'activate', 'read', 'gep') and rng.random() < .4:
        name = dict(gep='GetEndpointsReq', create='CreateSessionReq', activate='ActivateSessionReq', read='ReadReq')[svc]
        return t + r + sum((w.enc(x, rng, 2) for x in w.PLAIN[name][1:]), [])
    if svc == 'gep':
        return t + r + s_(b'opc') + length(-1) + length(0)
    if svc == 'create':
        app = s_(b'a') + s_(b'p') + [0] + le(1, 4) + s_([]) + s_([]) + length(-1)
        return t + r + app + s_([]) + s_(b'u') + s_(b'n') + s_([7] * 4) + s_([]) + [0, 0, 0, 0, 0, 0x4c, 0xdd, 0x40] + le(0 if rng is None else rng.choice([0, 65536, 0xffffffff]), 4)
    if svc == 'activate':
        return t + r + s_([]) + s_([]) + length(0) + length(-1) + [0, 0, 0] + s_([]) + s_([])
    if svc == 'close':
        return t + r + [1]
    if svc == 'read':
        return t + r + [0] * 8 + le(0, 4) + length(1) + [0, 85] + le(13, 4) + s_([]) + le(0, 2) + s_([])
    raise KeyError(svc)


def clobody(h):
    return w.nodeid_of(452) + reqhdr(h)


def opn(k, seq, rid, h, life=3600, ch=0, **kw):
    return dict(op='d', k=k, d=size([79, 80, 78, 70] + [0] * 4 + le(ch, 4) + opnbody(seq, rid, h, life, **kw)))


def bit(rng):
    """one wrong bit, or a few"""
    return rng.choice([1 << rng.randrange(32), 1 << rng.randrange(31), 0xffff0000, 0xff000000, 0x00ffffff, 0xff])


def secured(k, ty, seq, rid, bd, of=None, tok=None, ch=None, sid=None, tokx=0, chx=0):
    """a message on the channel told on link of (k itself), with that token, unless others are given"""
    of = k if of is None else of
    f = size([ord(c) for c in ty] + [70] + [0] * 4 + le(ch or 0, 4) + le(tok or 0, 4) + le(seq, 4) + le(rid, 4) + bd)
    sub = []
    if ch is None:
        sub.append([8, 4, 'ch', of] + [chx] * (chx > 0))
    if tok is None:
        sub.append([12, 4, 'tok', of] + [tokx] * (tokx > 0))
    if sid is not None:
        sub.append([29, 1, 'sid', sid])
    return dict(op='d', k=k, d=f, sub=sub)


def msg(k, svc, seq, rid, h, sid=None, rng=None, **kw):
    if svc in ('activate', 'close') and sid is None:
        sid = k
    return secured(k, 'MSG', seq, rid, body(svc, h, rng=rng), sid=sid if svc in ('activate', 'close', 'read') else None, **kw)


def clo(k, seq, rid, h, **kw):
    return secured(k, 'CLO', seq, rid, clobody(h), **kw)


UP = [dict(op='tinit'), dict(op='sinit'), dict(op='vinit'), dict(op='tcfg', a=0)]
ROUND = [dict(op='dlv', q=q) for q in 'SVSSTT']


def split(rng, op):
    """the bytes in pieces"""
    d = op['d']
    if len(d) < 2 or rng.random() < .75:
        return [op]
    cuts = sorted({rng.choice([1, 4, 7, 8, 11, 12, 13, len(d) - 1, rng.randrange(1, len(d))]) for _ in range(rng.choice([1, 1, 2, 3]))})
    cuts = [c for c in cuts if 0 < c < len(d)]
    out, p = [], 0
    sub = op.get('sub', [])
    for c in cuts + [len(d)]:
        if any(s[0] < c < s[0] + s[1] for s in sub):
            continue
        o = dict(op='d', k=op['k'], d=d[p:c])
        ss = [[s[0] - p, *s[1:]] for s in sub if p <= s[0] and s[0] + s[1] <= c]
        if ss:
            o['sub'] = ss
        out.append(o)
        p = c
    return out


class Clients:
    def __init__(self, rng, up=True):
        self.r, self.ops, self.k, self.nk, self.rid = rng, list(UP) if up else [], {}, 0, 1
        self.big = rng.random() < .15                     # numbers near the edges

    def accept(self):
        self.ops.append(dict(op='acc', a=0))
        self.k[self.nk] = dict(st='new', seq=0)
        self.nk += 1
        return self.nk - 1

    def newrid(self):
        self.rid += 1
        return self.rid if self.r.random() < .85 else self.r.choice([0, 0xffffffff, 0x80000000, self.rid - 1, 256 * self.rid])

    def h(self):
        return self.r.choice([0, 1, 7, self.rid, self.r.randrange(1 << 32)])

    def seq0(self):
        return self.r.choice([0xffffffff, 0xfffffffe, 255, 65535, 0x00ffffff, 0xff00ffff - 1]) if self.big else self.r.choice([0, 1, 1, 51, 255])

    def send(self, op, cut=True):
        parts = split(self.r, op) if cut else [op]
        late = len(parts) > 1 and self.r.random() < .2
        for i, o in enumerate(parts):
            self.ops.append(o)
            if late and i < len(parts) - 1:               # silence in the middle of a message
                self.ops.append(dict(op='tick', n=self.r.choice([149, 151, 299, 300])))
        if late and self.r.random() < .5:
            self.ops.append(dict(op='tick', n=self.r.choice([149, 151, 299])))

    def do_hello(self, k):
        d = hello(self.r if self.r.random() < .5 else None)
        if self.r.random() < .06:                         # looks like one, but is not
            d[:3] = [ord(c) for c in self.r.choice(['ACK', 'RHE', 'OPN', 'MSG', 'HEM', 'HAL', 'LEH', 'ERR', 'hel'])]
        self.send(dict(op='d', k=k, d=d))
        self.k[k]['st'] = 'hel'

    def do_open(self, k):
        c = self.k[k]
        c['seq'] = self.seq0()
        self.send(opn(k, c['seq'], self.newrid(), self.h(), self.r.choice([0, 3600, 0xffffffff]), ch=self.r.choice([0, 0, 5]), kind=self.r.choice([0, 0, 1])))
        c['st'] = 'open'

    def next(self, k):
        c = self.k[k]
        c['seq'] = (c['seq'] + 1) & 0xffffffff
        return c['seq']

    def do_msg(self, k, svc, sid=None, **kw):
        self.send(msg(k, svc, self.next(k), self.newrid(), self.h(), sid=sid, rng=self.r, **kw))

    def do_clo(self, k):
        self.send(clo(k, self.next(k), self.newrid(), self.h()))
        self.k.pop(k, None)

    def deliver(self, n=None):
        """some of the waiting messages, in some order of the receivers"""
        r = self.r
        if r.random() < .55:
            self.ops += ROUND
        else:
            for _ in range(n or r.choice([0, 1, 2, 3, 5, 8])):
                self.ops.append(dict(op='dlv', q=r.choice('TSSV')))

    def flush(self, n=3):
        self.ops += ROUND * n


def serve(rng, n):
    """clients as they should be, some of them not quite"""
    c = Clients(rng)
    r = rng
    bad = r.choice([0, 0, .05, .12])
    top = r.choice([1, 2, 2, 3, 4])
    while len(c.ops) < n:
        if len(c.k) < top and (not c.k or r.random() < .3):
            if r.random() < .04:
                c.ops.append(dict(op=r.choice(['xl', 'xt'])))
                c.ops.append(dict(op='acc', a=0))
                if c.ops[-2]['op'] == 'xt':
                    c.nk += 1
                continue
            if r.random() < .04:
                c.ops.append(dict(op='accf', a=0))
                continue
            c.accept()
            continue
        k = r.choice(sorted(c.k))
        x = c.k[k]
        if r.random() < bad:
            wrong(c, k)
        elif x['st'] == 'new':
            c.do_hello(k)
        elif x['st'] == 'hel':
            c.do_open(k)
            if r.random() < .8:
                c.flush(1)
        else:
            what = r.choices(['gep', 'create', 'activate', 'close', 'read', 'open', 'clo', 'eof', 'le', 'sf', 'tick', 'other'],
                             [2, 4, 4, 1.2, 5, .5, .6, .4, .3, .3, .7, .6])[0]
            if what in SVC:
                c.do_msg(k, what, sid=None if r.random() < .85 else r.choice(sorted(c.k)))
            elif what == 'other':
                c.do_msg(k, 'read', of=r.choice(sorted(c.k)))
            elif what == 'open':
                c.do_open(k)
            elif what == 'clo':
                c.do_clo(k)
            elif what in ('eof', 'le'):
                c.ops.append(dict(op=what, k=k))
                c.k.pop(k)
            elif what == 'sf':
                c.ops.append(dict(op='sf', k=k))
            else:
                c.ops.append(dict(op='tick', n=r.choice([1, 100, 150, 298, 299, 300, 301])))
        if r.random() < .8:
            c.deliver()
    c.flush()
    return c.ops


def sessions(rng, n):
    """two or three clients passing a few sessions around; channels come and go"""
    c, r = Clients(rng), rng
    c.big = False

    def come():
        k = c.accept()
        c.ops.append(dict(op='d', k=k, d=hello()))
        c.k[k]['seq'] = 1
        c.ops.append(opn(k, 1, 1, 1))
        c.flush(1)
    for _ in range(r.choice([1, 2, 2, 3])):
        come()
    while len(c.ops) < n:
        if not c.k:
            come()
        k = r.choice(sorted(c.k))
        what = r.choices(['create', 'activate', 'close', 'read', 'move', 'first', 'reopen', 'eof'], [2, 3, 1, 5, 1.5, 1.5, .4, .4])[0]
        if what == 'eof':
            c.ops.append(dict(op='eof', k=k))
            c.k.pop(k)
            c.flush(1)
            come()
        elif what == 'reopen':
            c.k[k]['seq'] = 1
            c.ops.append(opn(k, 1, 1, 1))
        else:
            svc = r.choice(['activate', 'activate', 'activate', 'close']) if what in ('move', 'first') else what
            o = msg(k, svc, c.next(k), c.newrid(), c.h(), sid=r.randrange(c.nk) if what == 'move' or svc == 'read' else k, rng=r)
            if what == 'first':
                o['sub'] = [x if x[2] != 'sid' else [*x[:2], 'sid0', x[3]] for x in o['sub']]
            c.ops.append(o)
        if r.random() < .9:
            c.flush(1)
        else:
            c.deliver()
    c.flush()
    return c.ops


def wrong(c, k):
    """something a client must not do"""
    r = c.r
    w_ = r.randrange(12)
    q = lambda: (c.k[k]['seq'] + 1) & 0xffffffff
    if w_ == 0:
        c.send(dict(op='d', k=k, d=hello()))
    elif w_ == 1:
        c.do_open(k)
    elif w_ == 2:
        c.send(msg(k, r.choice(list(SVC)), q(), 9, 9, tok=r.randrange(1 << 32)) if r.random() < .3 else
               r.choice([msg(k, r.choice(list(SVC)), q(), 9, 9, tokx=bit(r)), clo(k, q(), 9, 9, tokx=bit(r))]))
    elif w_ == 3:
        c.send(msg(k, r.choice(list(SVC)), (q() + r.choice([1, -1, 255, 256, 1 << 16, 1 << 24, 1 << 31, bit(r)])) & 0xffffffff, 9, 9))
    elif w_ == 4:
        c.send(msg(k, r.choice(list(SVC)), q(), 9, 9, ch=r.choice([0, 1, 2, 3, 32, 33, 0xffffffff])) if r.random() < .5 else msg(k, r.choice(list(SVC)), q(), 9, 9, chx=bit(r)))
    elif w_ == 5:
        o = r.choice([opn(k, 1, 9, 9), msg(k, r.choice(list(SVC)), q(), 9, 9), clo(k, q(), 9, 9), dict(op='d', k=k, d=hello())])
        o['d'] = size(w.broken(o['d'][:], r) or [0]) if len(o['d']) > 8 else o['d']
        c.send(o)
    elif w_ == 6:
        o = r.choice([opn(k, 1, 9, 9), clo(k, q(), 9, 9)])
        n = r.randrange(12, len(o['d']))
        o['d'] = size(o['d'][:n])
        o['sub'] = [s for s in o.get('sub', []) if s[0] + s[1] <= n]
        c.send(o)
    elif w_ == 7:
        o = msg(k, r.choice(list(SVC)), q(), 9, 9)
        n = r.choice([12, 15, 16, 19, 20, 23, 24, 26, 28, 30, 40])
        o['d'] = size(o['d'][:n])
        o['sub'] = [s for s in o.get('sub', []) if s[0] + s[1] <= n]
        c.send(o)
        c.next(k)
    elif w_ == 8:
        o = msg(k, r.choice(list(SVC)), q(), 9, 9)
        o['d'][4:8] = le(len(o['d']) + r.choice([-1, 1, -4, 5000, 1 << 16, 1 << 31]) & 0xffffffff, 4)
        c.send(o, False)
    elif w_ == 9:
        c.send(clo(k, (q() + 1) & 0xffffffff, 9, 9))
    elif w_ == 10:
        c.send(dict(op='d', k=k, d=[r.randrange(256) for _ in range(r.choice([1, 3, 8, 12, 30]))]), False)
    else:
        o = secured(k, r.choice(['ERR', 'ACK', 'msg', 'MSF']), q(), 9, body('read', 1))
        c.send(o)


def junk(rng, n):
    """hardly anything right"""
    c = Clients(rng)
    r = rng
    while len(c.ops) < n:
        if len(c.k) < 3 and (not c.k or r.random() < .3):
            k = c.accept()
            if r.random() < .8:
                c.do_hello(k)
            if r.random() < .7:
                c.do_open(k)
                c.flush(1)
                c.k[k]['st'] = 'open'
            continue
        k = r.choice(sorted(c.k))
        if r.random() < .3:
            svc = r.choice(list(SVC))
            o = msg(k, svc, c.next(k), 9, 9, rng=r)
            b = w.broken(o['d'][24:], r)
            o['d'] = size(o['d'][:24] + b)[:3800]
            o['sub'] = [s for s in o['sub'] if s[0] + s[1] <= len(o['d'])]
            c.send(size(o['d']) and o)
        else:
            wrong(c, k)
        c.deliver()
        if r.random() < .5:
            c.k.pop(k)
            c.ops.append(dict(op='eof', k=k))
    c.flush()
    return c.ops


def sec(m, c, ch, d, ck=70):
    return dict(m=m, c=c, ch=B4(ch), ck=ck, d=[int(x) for x in d])


def hdr(m, c, ch, rid, sid, d=None):
    x = dict(m=m, c=c, ch=B4(ch), rid=B4(rid), sid=sid if isinstance(sid, list) else B4(sid))
    if d is not None:
        x['d'] = d
    return x


def inj(m, sub=None):
    o = dict(op='inj', m=m)
    if sub:
        o['sub'] = sub
    return o


def transport(rng, n):
    """connections; what comes from the secure channels is made up"""
    c = Clients(rng)
    r = rng
    c.ops = [dict(op='tinit'), dict(op='tcfg', a=0)]
    ids, asc, stt = {}, {}, {}
    nid = 1
    while len(c.ops) < n:
        if len(c.k) < 3 and (not c.k or r.random() < .3):
            if r.random() < .08:
                c.ops += r.choice([[dict(op='xl'), dict(op='acc', a=0)], [dict(op='accf', a=0)], [dict(op='acc', a=1)]])
                continue
            if r.random() < .05:
                c.ops += [dict(op='xt'), dict(op='acc', a=0)]
                c.nk += 1
                nid += 1
                continue
            k = c.accept()
            ids[k] = nid
            nid += 1
            if r.random() < .95:
                c.do_hello(k)
                if r.random() < .9:                       # so that its number is known
                    c.send(opn(k, 1, 1, 1))
            continue
        k = r.choice(sorted(c.k))
        i = ids[k]
        ch = r.choice([asc.get(k, 1), asc.get(k, 1), 1, 2, 3])
        d = [r.randrange(256) for _ in range(r.choice([0, 1, 12, 40]))]
        what = r.choices(['opn', 'opnr', 'clor', 'send', 'relreq', 'msg', 'clo', 'wrong', 'eof', 'le', 'sf', 'tick', 'out', 'big'],
                         [3, 4, .7, 4, .6, 4, 1, .7, .5, .4, .6, 1.2, .5, .6])[0]
        if what == 'opn':
            c.send(dict(op='d', k=k, d=size([79, 80, 78, r.choice([70, 70, 67, 65, 9])] + [0] * 4 + le(ch, 4) + d)))
        elif what in ('msg', 'clo'):
            t = [77, 83, 71] if what == 'msg' else [67, 76, 79]
            c.send(dict(op='d', k=k, d=size(t + [r.choice([70, 70, 70, 67, 65, 0])] + [0] * 4 + le(ch, 4) + d)))
        elif what in ('opnr', 'clor', 'send'):
            c.ops.append(inj(sec(what, i, ch, d, r.choice([70, 70, 70, 67, 65, 0]))))
            if what == 'opnr':
                asc[k] = ch
        elif what == 'relreq':
            c.ops.append(inj(dict(m='relreq', c=i)))
        elif what == 'wrong':
            wrong(c, k)
        elif what == 'out':
            c.ops.append(inj(r.choice([sec('opnr', r.choice([i, 31, 32]), 9, d), sec('send', r.choice([nid, 32]), ch, d), dict(m='relreq', c=32), sec('clor', 32, 1, d)])))
        elif what == 'big':
            d = [r.randrange(256)] * r.choice([500, 1000, 3000, 3880])
            if r.random() < .5:
                c.send(dict(op='d', k=k, d=size([*r.choice([[77, 83, 71], [79, 80, 78], [67, 76, 79]]), 70] + [0] * 4 + le(ch, 4) + d)))
            else:
                c.ops.append(inj(sec(r.choice(['send', 'opnr', 'clor']), i, ch, d)))
        elif what == 'tick':
            c.ops.append(dict(op='tick', n=r.choice([1, 100, 150, 299, 300, 301, 600])))
        else:
            c.ops.append(dict(op=what, k=k))
            if what != 'sf':
                c.k.pop(k)
        if r.random() < .03:
            c.ops.append(inj(sec(r.choice(['opnr', 'send', 'clor']), r.choice([0, 33, 40, 100000]), 1, d)))
            break
    return c.ops


def admin(rng, n):
    """configuration and release between everything else"""
    c = Clients(rng)
    r = rng
    while len(c.ops) < n:
        if r.random() < .12:
            o = r.choice([dict(op='tinit'), dict(op='trel'), dict(op='sinit'), dict(op='srel'), dict(op='vinit'), dict(op='vrel'), dict(op='scfg'), dict(op='vcfg'),
                          dict(op='tcfg', a=0), dict(op='tcfg', a=1), dict(op='xa')])
            c.ops.append(o)
            if o['op'] in ('tinit', 'trel'):
                c.k = {}
            if r.random() < .6:
                c.ops += r.choice([UP, [dict(op='tcfg', a=0)], UP[:1] + UP[3:]])
                c.k = {}
        elif not c.k or r.random() < .2:
            c.accept()
            if r.random() < .3:
                c.ops.append(dict(op='acc', a=1))
                c.nk += 0
        else:
            k = r.choice(sorted(c.k))
            x = c.k[k]
            if x['st'] == 'new':
                c.do_hello(k)
            elif x['st'] == 'hel':
                c.do_open(k)
            else:
                c.do_msg(k, r.choice(list(SVC)))
        c.deliver()
    return c.ops


def channel(rng, n):
    """secure channels; what comes from the transport and the service is made up"""
    r = rng
    ops = [dict(op='sinit')]
    conn, nseq, nxt = {}, {}, 1
    big = r.random() < .2
    while len(ops) < n:
        what = r.choices(['opn', 'msg', 'clo', 'enc', 'assoc', 'relind', 'badopn'], [2 if len(conn) < 4 else .4, 6, .7, 5, 1.2, .5, .3])[0]
        ch = r.choice(sorted(conn)) if conn and r.random() < .93 else r.choice([1, 2, 3, 7, 32, 33, 0, 0xffffffff])
        c = conn.get(ch, 1) if r.random() < .9 else r.choice([1, 2, 3, 4])
        rid = r.choice([1, 2, 0xffffffff, r.randrange(1 << 32)])
        if what == 'opn':
            seq = r.choice([0xffffffff, 0xfffffffe, 255, 65535, 0x7fffffff]) if big else r.choice([0, 1, 51])
            c = r.choice([1, 2, 3, 4])
            ops.append(inj(sec('opn', c, r.choice([0, 1, 99]), opnbody(seq, rid, r.choice([0, 5, r.randrange(1 << 32)]), r.choice([0, 3600, 0xffffffff])))))
            if nxt <= 32:
                conn[nxt], nseq[nxt] = c, seq
                nxt += 1
        elif what == 'badopn':
            b = opnbody(1, rid, 3)
            ops.append(inj(sec('opn', c, 0, b[:r.randrange(len(b))] if r.random() < .7 else w.broken(b, r))))
            nxt += 1
        elif what in ('msg', 'clo'):
            q = (nseq.get(ch, 0) + 1) & 0xffffffff
            ok = True
            if r.random() < .06:
                q, ok = (q + r.choice([1, -1, 256, 1 << 16, 1 << 24, bit(r)])) & 0xffffffff, False
            bd = (body(r.choice(list(SVC)), 7) if r.random() < .6 else [r.randrange(256) for _ in range(r.choice([0, 1, 30]))]) if what == 'msg' else clobody(9)
            d = le(0, 4) + le(q, 4) + le(rid, 4) + bd
            sub = [[0, 4, 'tokc', ch]]
            if r.random() < .07:
                if r.random() < .3:
                    d[0:4] = le(r.randrange(1 << 32), 4)
                    sub = []
                else:
                    sub = [[0, 4, 'tokc', ch, bit(r)]]
                ok = False
            if r.random() < .04:
                d = d[:r.choice([0, 3, 4, 8, 11, 12])]
            ops.append(inj(sec(what, c, ch, d), [s for s in sub if len(d) >= 4]))
            if c == conn.get(ch):
                if ok and what == 'msg':
                    nseq[ch] = q
                else:
                    conn.pop(ch, None)
        elif what == 'enc':
            ops.append(inj(hdr('enc', c, ch, rid, r.choice([NOSID, 1, 2]), [r.randrange(256) for _ in range(r.choice([0, 1, 4, 60, 700]))])))
        elif what == 'assoc':
            ops.append(inj(hdr('assoc', c, ch, rid, r.choice([1, 1, 2]))))
        else:
            ops.append(inj(dict(m='relind', c=c, ch=B4(ch))))
            if c == conn.get(ch):
                conn.pop(ch, None)
        if r.random() < .01:
            ops += r.choice([[dict(op='srel')], [dict(op='sinit')], [dict(op='srel'), dict(op='sinit')]])
            conn, nxt = {}, 1
    return ops


def service(rng, n, readish=False):
    """services and sessions; what comes from the secure channels is made up"""
    r = rng
    ops = [dict(op='vinit')]
    nsess = 0
    bound = {}
    while len(ops) < n:
        svc = r.choices(list(SVC), [1.2, 3 if nsess < 4 else .6, 4, 1, 6])[0]
        ch = r.choice([1, 1, 2, 3])
        sid = r.choice([NOSID, *[B4(i) for i in range(1, nsess + 2)]])
        if svc == 'read' and bound and r.random() < .6:
            s = r.choice(sorted(bound))
            sid, ch = B4(s), bound[s]
        a = r.choice(list(range(0, nsess + 2)))
        auth = [0, a]
        if r.random() < .06:
            auth = r.choice([[0, 0], [0, 33], [0, 255], [1, 0] + le(a, 2), [2, 0, 0] + le(a, 4), [2, 0, 0] + le(a + 256, 4), [2, 0, 0] + le(0xffffffff, 4), [3, 0, 0] + s_([a]), [5, 0, 0] + s_([a])])
        b = body(svc, r.choice([0, 1, r.randrange(1 << 32)]), auth=auth, rng=r)
        k = r.random()
        if k < .04:
            b = b[:r.randrange(len(b))]
        elif k < .07:
            b = w.broken(b, r)
        elif k < .09:
            b = r.choice([w.nodeid_of(r.choice([0, 1, 255, 460, 462, 527, 65535])), [2, 0, 0] + le(0x100 * 65536 + 428, 4), [3, 0, 0] + s_([5]), [4, 0, 0] + [1] * 16]) + b[4:]
        else:
            if svc == 'create':
                nsess += 1
            elif svc == 'activate' and 1 <= a <= nsess and auth == [0, a]:
                bound[a] = ch
            elif svc == 'close':
                bound.pop(a, None)
        ops.append(inj(hdr('ind', r.choice([1, 2, 3]), ch, r.choice([1, 7, 0xffffffff, r.randrange(1 << 32)]), sid, b)))
        if r.random() < .008:
            ops += r.choice([[dict(op='vrel')], [dict(op='vinit')], [dict(op='vrel'), dict(op='vinit')]])
            nsess, bound = 0, {}
    return ops


def many(rng, what=None):
    """more than there is room for, and again after everything is given back"""
    r = rng
    what = what or r.choice(['conn', 'chan', 'sess'])
    if what == 'conn':
        c = Clients(r)
        end = r.choice(['eof', 'le', 'tick', 'bad'])
        for _ in range(2):
            ks = [c.accept() for _ in range(r.choice([32, 33, 34]))][:32]
            if r.random() < .5:
                for k in ks:
                    c.do_hello(k)
            if end == 'tick':
                c.ops.append(dict(op='tick', n=300))
            else:
                for k in ks:
                    c.ops.append(dict(op='d', k=k, d=[1] * 12) if end == 'bad' else dict(op=end, k=k))
            c.k = {}
        return c.ops
    if what == 'chan':
        ops = [dict(op='sinit')]
        end = r.choice(['clo', 'relind', 'msg'])
        ch = 0
        for _ in range(2):
            first = ch
            for j in range(34):
                ops.append(inj(sec('opn', j % 7 + 1, 0, opnbody(5, 1, 1))))
            for j in range(32):
                ch += 1
                m = (ch - 1) % 32 + 1
                c = (m - 1) % 7 + 1
                if end == 'relind':
                    ops.append(inj(dict(m='relind', c=c, ch=B4(m))))
                elif end == 'clo':
                    ops.append(inj(sec('clo', c, m, le(0, 4) + le(6, 4) + le(1, 4) + clobody(1)), [[0, 4, 'tokc', m]]))
                else:
                    ops.append(inj(sec('msg', c, m, [0] * 12)))
        return ops
    ops = [dict(op='vinit')]
    for _ in range(2):
        for j in range(34):
            ops.append(inj(hdr('ind', 1, 1, j, NOSID, body('create', 1))))
        for j in range(1, 33):
            if r.random() < .3:
                ops.append(inj(hdr('ind', 1, 1, j, NOSID, body('activate', 1, auth=[0, j]))))
            ops.append(inj(hdr('ind', 1, 1, j, NOSID, body('close', 1, auth=[0, j]))))
    return ops


ENDS = ['clo', 'eof', 'le', 'tick', 'tok', 'badopn', 'sf', 'eofearly', 'reopen', 'half', 'halfhello', 'stale', 'session']


def churner(how):
    return lambda rng: churn(rng, how)


def churn(rng, how=None, times=None):
    """whole sessions one after another, ended in one way, more often than there are connections, channels and sessions"""
    r = rng
    c = Clients(r)
    how = how or r.choice(ENDS)
    for n in range(times or r.choice([34, 40])):
        k = c.accept()
        if how == 'halfhello' and n % 3:
            c.ops += [dict(op='d', k=k, d=hello()[:r.randrange(1, 40)]), dict(op='eof', k=k)]
            continue
        c.ops.append(dict(op='d', k=k, d=hello()))
        if how == 'stale' and n >= 32:                    # a channel opened on the connection that had this number before
            c.ops += [msg(k, 'gep', 2, 2, 2, of=k - 32)] + [dict(op='dlv', q=q) for q in 'STTSS']
            continue
        c.ops.append(opn(k, 1, 1, 1))
        if how == 'eofearly':
            c.ops += [dict(op='dlv', q='S')] * r.choice([0, 1]) + [dict(op='eof', k=k)] + ROUND
            continue
        c.ops += [dict(op='dlv', q='S'), dict(op='dlv', q='T')]
        end, seq = how, 2
        if how == 'session':                              # one session, used by the first ones; the others try to read without
            for svc in ((['create'] if n == 0 else []) + (['activate'] if n < 32 else []) + ['read']):
                c.ops += [msg(k, svc, seq, seq, seq, sid=0)] + ROUND
                seq += 1
            end = r.choice(['clo', 'eof', 'le', 'tick', 'tok', 'reopen'])
        else:
            c.ops.append(msg(k, 'gep', 2, 2, 2))
            c.ops += [dict(op='dlv', q=q) for q in 'SVST']
            seq = 3
        if end == 'clo':
            c.ops.append(clo(k, seq, 3, 3))
        elif end in ('eof', 'le'):
            c.ops.append(dict(op=end, k=k))
        elif end in ('half', 'halfhello', 'stale'):
            m = msg(k, 'gep', seq, 3, 3)
            c.ops += [dict(op='d', k=k, d=m['d'][:r.randrange(1, 12)])] * (end == 'half') + [dict(op='eof', k=k)]
        elif end == 'tick':
            c.ops.append(dict(op='tick', n=300))
        elif end == 'tok':
            c.ops.append(msg(k, 'gep', seq, 3, 3, tok=4))
        elif end == 'badopn':
            c.ops.append(dict(op='d', k=k, d=size([79, 80, 78, 70] + [0] * 4 + le(0, 4) + [1, 2, 3])))
        elif end == 'sf':
            c.ops += [dict(op='sf', k=k), msg(k, 'gep', seq, 3, 3)] + [dict(op='dlv', q=q) for q in 'SVST']
        else:
            c.ops += [opn(k, 1, 1, 1), dict(op='dlv', q='S'), dict(op='dlv', q='T'), dict(op='dlv', q='S'), dict(op='eof', k=k)]
        c.ops += [dict(op='dlv', q=q) for q in 'STTSS']
        c.k = {}
    return c.ops


def concrete(ops):
    """a script of MCUa with the bytes put in"""
    st, out = {}, list(UP)
    nk = 0

    def build(o):
        """the message of a symbolic operation and what it does to the client's numbers"""
        k = o['k']
        c = st[k]
        rid, seq = 10 * k + c['n'] + 1, c['seq'] + 1
        what = o['op']
        if what == 'hel':
            return dict(op='d', k=k, d=hello()), dict(n=c['n'] + (1 if c['hel'] else 0), seq=c['seq'] + (1 if c['hel'] else 0), hel=True)
        up = dict(n=c['n'] + 1, seq=seq, hel=c['hel'])
        if what == 'open':
            return opn(k, 1, rid, rid, 5), dict(up, seq=1)
        if what == 'badopn':
            return dict(op='d', k=k, d=size([79, 80, 78, 70] + [0] * 8 + [1, 2, 3])), up
        if what == 'clo':
            return clo(k, seq, rid, rid), up
        if what in SVC:
            return msg(k, what, seq, rid, rid, sid=o.get('of')), up
        if what == 'steal':
            return msg(k, 'read', st[o['of']]['seq'] + 1, rid, rid, of=o['of']), up
        if what == 'badtok':
            return msg(k, 'read', seq, rid, rid, tok=1), up
        if what == 'badseq':
            return msg(k, 'read', seq + 1, rid, rid), up
        if what == 'oldseq':
            return msg(k, 'read', seq - 1, rid, rid), up
        if what == 'nosvc':
            return secured(k, 'MSG', seq, rid, w.nodeid_of(700) + [1]), up
        if what == 'badch':
            return msg(k, 'read', seq, rid, rid, ch=31), up
        return None, None

    half = {}
    for i, o in enumerate(ops):
        what = o['op']
        if what == 'acc':
            st[nk] = dict(n=0, seq=0, hel=False)
            nk += 1
            out.append(dict(op='acc', a=0))
        elif what in ('dlv', 'eof', 'le', 'sf'):
            out.append(o)
        elif what == 'tick':
            out.append(dict(op='tick', n=100 * o['n']))
        elif what == 'junk':
            out.append(dict(op='d', k=o['k'], d=[1] * 9))
        elif what == 'half':
            nxt = [x for x in ops[i + 1:] if x.get('k') == o['k'] and x['op'] not in ('sf', 'half')][:1]
            m = build(nxt[0])[0] if nxt else None
            n = 7 if m is None or len(m['d']) % 2 else 5
            out.append(dict(op='d', k=o['k'], d=m['d'][:n] if m else [77, 83, 71]))
            half[o['k']] = n if m else 3
        else:
            m, c = build(o)
            st[o['k']] = c
            n = half.pop(o['k'], 0)
            if n:
                m = dict(m, d=m['d'][n:], sub=[[s[0] - n] + s[1:] for s in m.get('sub', [])])
            out.append(m)
    return out


# ---- the time of day
def clk(rng):
    """any moment from 1970 to 2260 (what follows can not be counted in nanoseconds, in 64 bits)"""
    s = rng.choice([0, 1, 951782400, 1709164800, 1700000000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 4107542400, 9151487999,
                    rng.randrange(1 << 31), rng.randrange(1 << 32), rng.randrange(9151488000)])
    return dict(op='clk', s=list(s.to_bytes(5, 'big')), us=rng.choice([0, 1, 9, 255, 256, 99999, 499999, 500000, 999999, rng.randrange(1000000)]))


def clocked(f, p=.3):
    """a history with the clock put forward and back"""
    def h(rng):
        out = []
        for x in f(rng):
            if rng.random() < p:
                out.append(clk(rng))
            out.append(x)
        return out
    return h


def clocks(f, before):
    """a script of MCTime: its moments, put into a history before the operations named"""
    import random
    def w(ops):
        rng, out, n = random.Random(repr(ops)), [], 0
        for x in f(rng):
            if x['op'] in before:
                out.append(ops[n % len(ops)])
                n += 1
            out.append(x)
        return out
    return w


def again(rng):
    """channels and sessions in use when a component is released or initialised once more, and what their clients do then"""
    r = rng
    seq = {}
    ops = list(UP)

    def conn(k):
        ops.extend([dict(op='acc', a=0), dict(op='d', k=k, d=hello()), opn(k, 1, 1, 9)] + ROUND * 3)
        seq[k] = 1

    def ask(k, svc, times=1):
        for _ in range(times):
            seq[k] += 1
            ops.extend([msg(k, svc, seq[k], 2, r.randrange(1, 9))] + ROUND * 2)

    many = r.random() < .3
    for k in range(1 if many else r.choice([1, 2])):
        conn(k)
        ask(k, 'create', r.choice([17, 20, 31]) if many else r.choice([1, 1, 2]))
        if r.random() < .7:
            ask(k, 'activate')
        if r.random() < .3:
            ask(k, 'read')
    for _ in range(r.choice([1, 1, 2])):
        ops.extend(r.choice([['vinit'], ['vinit'], ['vrel', 'vinit'], ['sinit'], ['srel', 'sinit'], ['vrel', 'srel', 'sinit', 'vinit'], ['vcfg', 'scfg'], ['vrel']]))
        ops[:] = [dict(op=x) if isinstance(x, str) else x for x in ops]
        if r.random() < .3:
            ops.extend(r.choice([[dict(op='tinit'), dict(op='tcfg', a=0)], [dict(op='trel'), dict(op='tinit'), dict(op='tcfg', a=0)], [dict(op='tcfg', a=0)]]))
            n = max(seq) + 1
            conn(n)
        for _ in range(r.choice([1, 2, 3])):
            k = r.choice(sorted(seq))
            ask(k, r.choice(['activate', 'close', 'read', 'create', 'gep']))
        if many:
            ask(max(seq), 'create', r.choice([20, 32, 33]))
    return ops
