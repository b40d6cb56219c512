"""Long lives: the same ordinary thing in one lifetime more often than a byte can count, for what goes wrong only then."""
import gen_ctrl as gc
import gen_lib as gl
import gen_modbus as gm
import gen_ua as gu

MANY = 262


def more(rng):
    return MANY + rng.randrange(12)


# ---- Modbus
def client(rng):
    """one client, one request after another, almost all of them answered"""
    g = gm.G(rng, None)
    g.setup(1, 0, connect=False)
    g.op('lc', p=1)
    tid, step = rng.randrange(65536), rng.choice([1, 1, 7, 256])
    for n in range(more(rng)):
        q = g.request(0)
        while not g.ok(q) or q['f'] not in (3, 4, 6, 16) or q['th'] or q['ni'] > 3:
            q = g.request(0)
        q['tl'] = tid = (tid + step) & 0xffff
        g.op('req', items=[q])
        g.op('tick', n=1)
        f, a = q['f'], q['a']
        if n % 97 == 96:
            g.op('tick', n=500)
        elif n % 50 == 49:
            g.op('ld', p=1, d=gm.hdr(tid, 3) + [a, 0x8f, 2])
        elif f in (3, 4):
            g.op('ld', p=1, d=gm.hdr(tid, 3 + 2 * q['ni']) + [a, f, 2 * q['ni']] + g.bs(2 * q['ni']))
        else:
            g.op('ld', p=1, d=gm.hdr(tid, 6) + [a, f] + gm.be(q['si']) + (gm.swap(q['d']) if f == 6 else gm.be(q['ni'])))
    return g.ops


def reconnect(rng):
    """one client whose connection ends, or never comes about, again and again"""
    g = gm.G(rng, None)
    g.setup(1, 0, connect=False)
    how = rng.choice(['le', 'leof', 'never', 'silent'])
    for n in range(more(rng)):
        if how == 'never':
            g.op('tick', n=300)
            g.op('tick', n=50)
            continue
        g.op('lc', p=1)
        if n % 16 == 15:
            g.op('req', items=[dict(c=0, th=0, tl=n, f=3, a=1, si=0, ni=1, d=[])])
            g.op('tick', n=1)
            g.op('ld', p=1, d=gm.hdr(n, 5) + [1, 3, 2, 7, 8])
        if how == 'silent':
            g.op('req', items=[dict(c=0, th=0, tl=n, f=3, a=1, si=0, ni=1, d=[])])
            g.op('tick', n=501)
            continue
        g.op(how, p=1)
        g.op('tick', n=50)
    g.op('lc', p=1)
    return g.ops


def server(rng):
    """one connection, one request after another"""
    g = gm.G(rng, None)
    g.setup(0, 1)
    g.op('acc', a=9)
    for n in range(more(rng)):
        f, tid = rng.choice([3, 4, 6, 16]), (40000 + 7 * n) & 0xffff
        b = [1, f] + gm.be(n) + {3: [0, 1], 4: [0, 2], 6: [7, 8], 16: [0, 1, 2, 5, 6]}[f]
        g.op('sd', k=0, d=gm.hdr(tid, len(b)) + b)
        if n % 61 == 60:
            g.op('tick', n=500)
        else:
            g.op('arsp', k=0, tid=tid, e=2 if n % 41 == 40 else 0, st=0, d={3: [1, 2], 4: [1, 2, 3, 4], 6: [8, 7], 16: []}[f])
        if n % 16 == 15:
            g.op('tick', n=2000)
    return g.ops


# ---- OPC UA
def ua(rng, what=None):
    r = rng
    c = gu.Clients(r)
    what = what or r.choice(['msg', 'read', 'cycle', 'login'])
    k = c.accept()
    c.ops += [dict(op='d', k=k, d=gu.hello()), gu.opn(k, r.choice([1, 0, 200, 0xffffff00]), 1, 1)] + gu.ROUND
    seq = c.ops[-len(gu.ROUND) - 1]
    seq = int.from_bytes(bytes(gu_seq(seq['d'])), 'little')
    svc = dict(msg=['gep'], read=['read'], cycle=['create', 'activate', 'read', 'close'], login=['activate'])[what]
    first = ['create', 'activate'] if what in ('read', 'login') else []
    for n in range(more(r) + len(first)):
        s = first[n] if n < len(first) else svc[(n - len(first)) % len(svc)]
        seq = (seq + 1) & 0xffffffff
        sid = None if what == 'msg' else 0
        c.ops += [gu.msg(k, s, seq, n + 2, n, sid=sid)] + gu.ROUND
        if n % 16 == 15:
            c.ops.append(dict(op='tick', n=200))
    return c.ops


def users(rng):
    """one connection after another"""
    return gu.churn(rng, rng.choice(['clo', 'eof', 'tok', 'session']), more(rng))


def gu_seq(d):
    """the sequence number of an open request"""
    p = 12
    for _ in range(3):                                    # policy, certificate, thumbprint
        n = int.from_bytes(bytes(d[p:p + 4]), 'little')
        p += 4 + (0 if n == 0xffffffff else n)
    return d[p:p + 4]


# ---- OPC UA library
def lib(rng, kind=None):
    r = rng
    kind = kind or r.choice(gl.KINDS)
    how = r.choice(['stay', 'again', 'renew'] if kind == 'chan' else ['stay', 'again'])
    o = gl.o
    ops = [o('new', k=0, kind=kind)]

    def begin():
        ops.append(o('con', k=0, a=0, f='') if kind in gl.DIALS else o('acc', k=0, f=''))
        if kind in gl.DIALS:
            ops.append(o('lc', k=0))
        ops.append(o('d', k=0, d=gl.ack() if kind in gl.DIALS else gl.hello()))

    end = r.choice(['cls', 'eof', 'le'])
    s = 5
    for n in range(more(r)):
        if n == 0 or how == 'again':
            begin()
        if kind == 'chan':
            if n == 0 or how != 'stay':
                s = r.choice([5, 0xfffffffe])
                ops.append(gl.opn(0, s, n, n))
            s = (s + 1) & 0xffffffff
            ops.append(gl.sec(0, 'MSG', s, n, [n & 255]))
            ops.append(o('snd', k=0, d=[n & 255, 1]))
        elif kind == 'cchan':
            ops.append(gl.opnr(0, n))
        else:
            ops.append(o('d', k=0, d=gl.size([77, 83, 71, 70] + [0] * 4 + [n & 255] * 5)))
            ops.append(o('snd', k=0, d=[n & 255]))
        if n % 16 == 15:
            ops.append(o('tick', n=60))
        if how == 'again':
            ops.append(o(end, k=0))
    return ops


# ---- reactor
def clk(rng):
    return {'op': 'clk', 'ns': rng.randrange(1000000) * 1000}


def message(rng):
    """one message at a time"""
    ops = [clk(rng)] + [{'op': 'reg', 'm': m, 'tag': m} for m in (1, 2, 3, 4)]
    v = 0
    for n in range(more(rng)):
        v += 1
        ops.append({'op': 'snd', 'q': [{'m': rng.randrange(1, 5), 'len': 64, 'v': v, 'act': rng.choice([0, 0, 0, 1]), 'n': 0}]})
        if n % 32 == 31:
            ops.append({'op': 'reg', 'm': rng.randrange(1, 5), 'tag': n % 7})
    return ops


def timer(rng):
    ops = [clk(rng), {'op': 'tc', 't': 1}, {'op': 'tc', 't': 2}]
    us = rng.choice([10, 1000, 999999, 1000000])
    how = rng.choice(['again', 'restart', 'anew'])
    for n in range(more(rng)):
        if how == 'anew' and n:
            ops += [{'op': 'td', 't': 1}, {'op': 'tc', 't': 1}]
        ops.append({'op': 'ts', 't': 1, 'us': us})
        if how == 'restart':
            ops += [{'op': 'adv', 'us': us - 1, 'late': 0}, {'op': 'tx', 't': 1} if n % 5 == 4 else {'op': 'ts', 't': 1, 'us': us}]
        ops.append({'op': 'adv', 'us': us, 'late': 0})
    return ops


def link(rng):
    """connections one after another, made or accepted, ended in one way"""
    ops = [clk(rng), {'op': 'plis', 'p': 1}, {'op': 'anew', 'a': 1}, {'op': 'alisten', 'a': 1}]
    how, end = rng.choice(['out', 'in', 'one']), rng.choice(['pclose', 'lclose', 'ldel', 'prst'])
    for n in range(more(rng)):
        c = 100 + n
        if how == 'one':
            if n == 0:
                ops += [dict(op='lnew', l=1, rd=1, end='', dat=''), dict(op='lconn', l=1, p=1, c=100, d=[])]
            ops += [dict(op='pw', c=100, d=[n & 255, 1]), dict(op='lsend', l=1, d=[n & 255])]
            continue
        if how == 'out':
            ops += [dict(op='lnew', l=1, rd=1, end='', dat=''), dict(op='lconn', l=1, p=1, c=c, d=[])]
        else:
            ops.append(dict(op='pconn', a=1, c=c, l=1, d=[n & 255], rd=1, end='', dat=''))
        if n % 8 == 0:
            ops += [dict(op='pw', c=c, d=[n & 255]), dict(op='lsend', l=1, d=[n & 255])]
        ops.append(dict(op=end, c=c) if end[0] == 'p' else dict(op=end, l=1))
        if end != 'ldel':
            ops.append(dict(op='ldel', l=1))
    return ops


# ---- controller
def starts(rng):
    c = gc.Ctl()
    how = rng.choice(['quick', 'full', 'fail'])
    for n in range(more(rng)):
        c.ops += [gc.o('start')]
        if how != 'quick' or n % 16 == 0:
            c.fresh()
            c.ops += [gc.o('minit'), gc.o('mcfg')] + [gc.o(x) for x in gc.UA]
        if how == 'fail' or n % 32 == 31:
            x = c.right(0)
            x['st'] = 1 - x['st']
            c.ops.append(x)
        c.ops.append(gc.o('stop'))
    c.up()
    return c.ops


def rounds(rng):
    c = gc.Ctl()
    c.up()
    for n in range(more(rng)):
        c.round(serve=n == 0 or n % 64 == 63)
        c.ops.append(gc.o('tick', n=10))
    return c.ops
