"""Checks of the OPC UA binary codec."""
import random

import uawire as w

DRIVER = 'co_drv'
TRACE = 'TraceUaBinary'
CONST = {'Cap': 4096}
MSGS = sorted(w.CONT)


def op(t, b, n=2):
    return dict(op='dec', t=t, b=[int(x) for x in b[:4096]], n=n)


def script(types, f):
    def gen(rng):
        return [f(rng, rng.choice(types)) for _ in range(8)]
    return gen


def good(rng, t):
    return op(t, w.enc(t, rng))


def tail(rng, t):
    return op(t, w.enc(t, rng) + [rng.randrange(256) for _ in range(rng.choice([1, 2, 3, 9]))])


def bad(rng, t):
    b = w.enc(t, rng)
    for _ in range(rng.choice([1, 1, 1, 2])):
        b = w.broken(b, rng)
    return op(t, b)


def noise(rng, t):
    return op(t, [rng.choice([0, 1, 2, 3, 255, rng.randrange(256)]) for _ in range(rng.choice([1, 4, 9, 30, 120]))])


def cap(rng, t):
    """more than the buffer takes"""
    b = w.enc(t, rng)
    return op(t, b, rng.choice([40, 400, 4097]))


BIG = ['String', 'ByteString', 'Variant', 'ExtensionObject', 'NodeId', 'QualifiedName', 'HelloMessage', 'ErrorMessage', 'SecurityHeader',
       '[]Byte', '[]Boolean', '[]UInt64', 'LocalizedText', 'DiagnosticInfo']


def long(rng, t):
    """values of about the size of the buffer"""
    n = rng.choice([4080, 4085, 4088, 4090, 4091, 4092, 4093, 4096, 2040, 1000])
    s = lambda k: w.length(max(k, 0)) + [rng.randrange(256)] * max(k, 0)
    b = {'String': lambda: s(n), 'ByteString': lambda: s(n), 'Variant': lambda: [12] + s(n - 1), 'ExtensionObject': lambda: [0, 0, 1] + s(n - 3),
         'NodeId': lambda: [3, 1, 0] + s(n - 3), 'QualifiedName': lambda: [1, 0] + s(n - 2), 'HelloMessage': lambda: [1] * 20 + s(n - 20),
         'ErrorMessage': lambda: [1] * 4 + s(n - 4), 'SecurityHeader': lambda: s(7) + s(n - 19) + s(0), '[]Byte': lambda: s(n),
         '[]Boolean': lambda: w.length(n) + [1] * n, '[]UInt64': lambda: w.length(n // 8) + [7] * (n // 8 * 8),
         'LocalizedText': lambda: [3] + s(n // 2) + s(n - n // 2 - 5),
         'DiagnosticInfo': lambda: [64] * 60 + [16] + s(n - 61)}[t]()
    k = rng.random()
    if k < .3:
        b = b[:-1]
    return op(t, b, rng.choice([1, 2, 4]))


def pair(rng, t):
    """two values, often the same or almost"""
    s = rng.getrandbits(32)
    a = w.enc(t, random.Random(s))
    k = rng.random()
    if k < .25:
        b = list(a)
    elif k < .85 and a:
        b = list(a)
        j = rng.choice([rng.randrange(len(b)), len(b) - 1])
        b[j] = rng.choice([(b[j] + 1) % 256, b[j] ^ 128, 0, rng.randrange(256)])
    else:
        b = w.enc(t, rng)
    if rng.random() < .5:
        a, b = b, a
    d = dict(da=rng.choice([[], [2], [2, 1]]), db=rng.choice([[], [2], [2, 3], [2, 1]])) if t == 'Variant' and rng.random() < .3 else {}
    return dict(d, op='eq', t=t, a=[int(x) for x in a[:4096]], b=[int(x) for x in b[:4096]])


def longpair(rng, t):
    """long strings that differ far behind, if at all"""
    n = rng.choice([200, 256, 257, 300, 1000])
    a = [rng.randrange(256) for _ in range(n)]
    b = list(a)
    if rng.random() < .7:
        j = rng.choice([n - 1, rng.randrange(n)])
        b[j] ^= 1 << rng.randrange(8)
    f = {'String': [], 'ByteString': [], 'Variant': [12], 'ExtensionObject': [0, 0, 1], 'NodeId': [3, 1, 0], 'QualifiedName': [1, 0], '[]Byte': [], 'LocalizedText': [2]}[t]
    return dict(op='eq', t=t, a=f + w.length(n) + a, b=f + w.length(n) + b)


def new(rng):
    m = list(MSGS)
    rng.shuffle(m)
    return [dict(op='new', t=t) for t in m]


def mc(part, wide=False, sample=1500):
    return dict(module='MCUaBinary', constants=dict(Part=part, Wide=wide), invariants=['AsEncoded', 'Symmetric'] if part[:2] == 'eq' else ['RoundTrip', 'NoPrefix'], sample=sample)


BT = w.BUILTIN + w.ARRAYS
MT = w.MESSAGE
PROPS = {
    'C01': dict(chans=['dec', 'enc'], models=dict(quick=[mc('builtin')], thorough=[mc('builtin', True)]),
                histories=[(script(BT, good), 300, 6000), (script(BT, tail), 100, 2000), (script(['Variant', 'DataValue', 'DiagnosticInfo', 'NodeId', 'ExpandedNodeId'], good), 150, 3000)]),
    'C02': dict(chans=['dec', 'enc'], models=dict(quick=[mc('message')], thorough=[mc('message', True, 4000)]),
                histories=[(new, 1, 1), (script(MT, good), 200, 5000), (script(MT, tail), 40, 1000)]),
    'C03': dict(chans=['dec', 'cap'], models=dict(quick=[mc('builtin', sample=500)], thorough=[mc('builtin', True), mc('message', True, 4000)]),
                histories=[(script(BT, bad), 250, 6000), (script(MT, bad), 150, 4000), (script(BT + MT, noise), 150, 3000),
                           (script(BT + MT, cap), 80, 800), (script(BIG, long), 40, 400)]),
    'C04': dict(chans=['eq'], models=dict(quick=[mc('eq', sample=4000), mc('eqv', sample=1000)], thorough=[mc('eq', True, sample=20000), mc('eqv', sample=8000)]),
                histories=[(script(BT, pair), 400, 8000), (script(['Variant', 'DataValue', 'DiagnosticInfo', 'NodeId', 'ExpandedNodeId', 'LocalizedText', 'Guid', 'ExtensionObject', 'QualifiedName'], pair), 300, 6000),
                           (script(['String', 'ByteString', 'Variant', 'ExtensionObject', 'NodeId', 'QualifiedName', '[]Byte', 'LocalizedText'], longpair), 40, 400)]),
}
