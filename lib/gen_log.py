"""Scripts for the log."""

TEXTS = [[], [104, 105], [37, 115, 37, 110, 37, 100], [37], [92, 110], [255, 128, 1, 9], [32] * 5, [58, 32, 91, 93]]


def text(r):
    k = r.random()
    if k < .3:
        return list(r.choice(TEXTS))
    n = r.choice([1, 3, 20, 80, 81, 255, 256, 500, 900]) if k < .85 else r.choice([1000, 1010, 1015, 1021, 1022, 1023, 1024, 1025, 1030, 1100, 2000, 5000])
    x = r.choice([97, 37, 120])
    return [x] * n if r.random() < .5 else [r.choice([37, 115, 110, 100, 65, 32, 200, *range(33, 126)]) for _ in range(n)]


def clock(r):
    d = r.choice([0, 1, 58, 59, 60, 789, 11016, 11017, 11322, 11323, 19782, 19783, 19784, 24855, 24856, 47540, 47541, r.randrange(105000), r.randrange(25000)])
    s = r.choice([0, 1, 59, 60, 3599, 3600, 43199, 43200, 46800, 86399, r.randrange(86400)])
    return dict(op='clk', d=d, s=s, us=r.choice([0, 999, 1000, 9999, 10000, 99999, 100000, 999999, r.randrange(1000000)]))


def history(r, n):
    ops = []
    for _ in range(n):
        k = r.random()
        if k < .2:
            ops.append(dict(op='lvl', t=r.randrange(7), l=r.randrange(5)))
        elif k < .35:
            ops.append(clock(r))
        elif k < .42:
            ops.append(dict(op='tz', m=r.choice([0, 60, 210, 345, 840, -60, -210, -720, r.randrange(-720, 841)])))
        elif k < .44:
            ops.append(dict(op='thr', t=r.randrange(7), l=r.randrange(4), n=r.choice([2, 3, 4]), per=r.choice([5, 20]), d=[x for x in text(r)[:200]]))
        else:
            ops.append(dict(op='log', t=r.randrange(7), l=r.randrange(4), how=r.randrange(2), n=r.choice([0, 7, 4294967, 2147483647]), p=r.randrange(3), d=text(r)))
    return ops


def threads(r):
    t = r.randrange(7)
    return [dict(op='lvl', t=t, l=0), clock(r), dict(op='thr', t=t, l=r.randrange(4), n=r.choice([3, 4]), per=40, d=[97] * r.choice([1, 60]))]
