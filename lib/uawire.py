"""Random OPC UA binary data, over the type tables of spec/UaBinary.tla. Only a source of inputs: what the bytes mean is
decided by the specification."""
import os, re
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'UaBinary.tla')
_t = re.sub(r'\\\*.*', '', open(SPEC).read())
FIXED = {k: int(v) for k, v in re.findall(r'(\w+) \|-> (\d+)', re.search(r'Fixed == \[(.*?)\]', _t, re.S).group(1))}
_vt = re.search(r'VarType == <<(.*?)>>', _t, re.S).group(1)
VARTYPE = re.findall(r'"(\w+)"', _vt)
PLAIN = {}
for k, body in re.findall(r'(\w+)\s*\|->\s*((?:Hdr4 \\o )?<<.*?>>)', re.search(r'Plain ==\s*\[(.*?)>>\]', _t, re.S).group(1) + '>>', re.S):
    f = ['Byte'] * 4 if body.startswith('Hdr4') else []
    for a, e in re.findall(r'(Arr\()?"(\w+)"', body):
        f.append(('[]' if a else '') + e)
    PLAIN[k] = f
CONT = {k: int(v) for k, v in re.findall(r'(\w+) \|-> (\d+)', re.search(r'Cont == \[(.*?)\]', _t, re.S).group(1))}
STRUCT = dict(PLAIN)
STRUCT.update({m + 'Cont': ['ExpandedNodeId', m] for m in CONT})
MASKED = {k: [(int(b), x) for b, x in re.findall(r'<<(\d+), "(\w+)">>', body)]
          for k, body in re.findall(r'(\w+)\s*\|->\s*<<( <<.*?>>) >>', re.search(r'Masked ==\s*\[(.*?)\]', _t, re.S).group(1), re.S)}
BUILTIN = sorted(FIXED) + ['String', 'ByteString', 'Boolean', 'Guid', 'NodeId', 'ExpandedNodeId', 'Variant', 'ExtensionObject',
                           'QualifiedName'] + sorted(MASKED)
MESSAGE = sorted(set(STRUCT) - {'Guid', 'QualifiedName'})
ARRAYS = ['[]' + x for x in VARTYPE if x != 'XmlElement'] + ['[]DiagnosticInfo', '[]DataValue']
assert len(PLAIN) == 35 or len(PLAIN) > 30, len(PLAIN)


def num(r, n):
    k = r.random()
    if k < .2:
        return [0] * n
    if k < .35:
        return [255] * n
    if k < .55:
        return [r.randrange(256)] + [0] * (n - 1)
    if k < .65:
        return [0] * (n - 1) + [128]
    return [r.randrange(256) for _ in range(n)]


def le(n, k):
    return [(n >> (8 * i)) & 255 for i in range(k)]


def length(n):
    return le(n & 0xffffffff, 4)


def string(r, big=0):
    k = r.random()
    if k < .2:
        return length(-1)
    if k < .35:
        return length(0)
    n = r.choice([1, 2, 3, 5, 8, 13]) if k < .93 or not big else r.choice([127, 128, 255, 256, 257, 300])
    if r.random() < .5:
        return length(n) + [r.choice(b'abcxyz:/.') for _ in range(n)]
    return length(n) + [r.choice([0, 255, 65, r.randrange(256)]) for _ in range(n)]


def nodeid(r, flags=0, kind=None, nid=None):
    k = r.choice([0, 0, 1, 1, 2, 2, 3, 4, 5]) if kind is None else kind
    if k == 0:
        return [flags | 0, r.choice([0, 1, 9, 255]) if nid is None else nid]
    if k == 1:
        return [flags | 1, r.choice([0, 0, 1, 255])] + le(r.choice([0, 7, 255, 256, 65535]), 2)
    ns = le(r.choice([0, 0, 1, 255, 256, 513, 65535]), 2)
    if k == 2:
        return [flags | 2] + ns + (num(r, 4) if r.random() < .6 else le(r.choice([0, 5, 255, 256, 65535, 65536]), 4))
    if k == 3 or k == 5:
        return [flags | k] + ns + string(r)
    return [flags | 4] + ns + [r.randrange(256) for _ in range(16)]


def enc(t, r, d=0):
    """the bytes of a random value of the type; not always the ones an encoder would choose"""
    if t == 'Boolean':
        return [r.choice([0, 1, 1, 2, 255])]
    if t in FIXED:
        return num(r, FIXED[t])
    if t in ('String', 'ByteString'):
        return string(r, d == 0)
    if t == 'Guid':
        return [r.randrange(256) for _ in range(16)]
    if t == 'NodeId':
        return nodeid(r)
    if t == 'ExpandedNodeId':
        u, s = r.random() < .3, r.random() < .3
        return nodeid(r, (128 if u else 0) | (64 if s else 0)) + (string(r) if u else []) + (num(r, 4) if s else [])
    if t == 'ExtensionObject':
        n = nodeid(r, kind=r.choice([None, 0]))
        return n + r.choice([[0], [0], [1] + string(r)])
    if t == 'Variant':
        if r.random() < .1:
            return [0]
        k = r.choice([x for x in range(1, 23) if x != 16])
        if r.random() < .4:
            return [128 | k] + enc('[]' + VARTYPE[k - 1], r, d + 1)
        return [k] + enc(VARTYPE[k - 1], r, d + 1)
    if t in MASKED:
        ps = [p for p in MASKED[t] if r.random() < (.5 if d < 3 else .15)]
        if t == 'DiagnosticInfo' and d > 6:
            ps = [p for p in ps if p[1] != 'DiagnosticInfo']
        return [sum(b for b, _ in ps)] + sum((enc(x, r, d + 1) for _, x in ps), [])
    if t in STRUCT:
        if t.endswith('Cont') and r.random() < .9:
            n = CONT[t[:-4]]
            return (nodeid_of(n)) + enc(t[:-4], r, d + 1)
        return sum((enc(x, r, d + 1) for x in STRUCT[t]), [])
    assert t.startswith('[]'), t
    if r.random() < .15:
        return length(-1)
    n = r.choice([0, 1, 1, 2, 3]) if d else r.choice([0, 1, 2, 3, 5, 40])
    return length(n) + sum((enc(t[2:], r, d + 1) for _ in range(n)), [])


def nodeid_of(n):
    return [1, 0] + le(n, 2) if n > 255 else [0, n]


def broken(b, r):
    """something that is not quite it: cut off, a byte changed, a length changed, bytes inserted or taken away"""
    b = list(b)
    k = r.random()
    if not b or k < .35:
        return b[:r.randrange(len(b) + 1)] if b else [r.randrange(256)]
    i = r.randrange(len(b))
    if k < .6:
        b[i] = r.choice([0, 255, b[i] ^ (1 << r.randrange(8)), r.randrange(256)])
    elif k < .75 and len(b) >= 4:
        i = r.randrange(len(b) - 3)
        b[i:i + 4] = r.choice([length(-1), length(-2), length(0x7fffffff), length(-0x80000000), length(len(b)), length(len(b) - i),
                               length(len(b) - i - 4), length(len(b) - i - 3), length(65536), length(0x10000 * 3), length(4097)])
    elif k < .85:
        del b[i]
    elif k < .95:
        b.insert(i, r.choice([0, 255, r.randrange(256)]))
    else:
        b += [r.randrange(256) for _ in range(r.choice([1, 2, 40]))]
    return b
