"""Checks of the reactor properties: the real reactor, virtual time, real sockets."""
import gen_long as long
import gen_reactor as g

DRIVER = 're_drv'
TRACE = 'TraceReactor'
CONST = {'QCap': 64, 'MaxLen': 4096, 'Pool': 32}

INV = ['Rest', 'InOrder', 'NoLoss', 'Ends', 'Pools']


def mc(mode, n, sample=500):
    return dict(module='MCReactor', constants=dict(Mode=mode, NOps=n, **CONST), invariants=INV, properties=['OnTime'], sample=sample)


def threads(n, per, cap):
    return dict(module='ReactorMsg', constants=dict(Senders=set(range(1, n + 1)), PerSender=per, Cap=cap),
                invariants=['Enough', 'Fifo', 'Once', 'PerSenderOrder', 'OnlyWhenFull'], properties=['AllArrive'], spec='FairSpec', gen=False)


def hist(f, ln, *a):
    return lambda rng: f(rng, rng.choice(ln), *a)


PROPS = {
    'R01': dict(chans=['skip', 'rx', 'man'], models=dict(quick=[mc('msg', 2), threads(2, 2, 2)],
                                                       thorough=[mc('msg', 3), threads(2, 3, 2), threads(3, 2, 2)]),
                histories=[(hist(g.messages, [15, 30]), 250, 6000), (g.routing, 30, 500), (g.burst, 24, 800), (g.threaded, 6, 100), (long.message, 2, 20)]),
    'R02': dict(chans=['skip', 'r', 'cnt', 'rx', 'fired', 'ev', 'acc', 'fds'],
                models=dict(quick=[mc('fault', 3, 400)], thorough=[mc('fault', 4)]),
                histories=[(g.pools, 60, 1000), (hist(g.network, [25, 40], True), 120, 3000), (hist(g.messages, [15]), 60, 1000),
                           (hist(g.timers, [30]), 60, 1000), (long.link, 2, 20)]),
    'R03': dict(chans=['skip', 'r', 'fired', 'rx'], models=dict(quick=[mc('timer', 4, 600)], thorough=[mc('timer', 5)]),
                histories=[(hist(g.timers, [30, 60]), 400, 10000), (long.timer, 4, 40)]),
    'R04': dict(chans=['skip', 'r', 'ev', 'acc', 'prx', 'peof', 'fds'],
                models=dict(quick=[mc('link', 4, 400)], thorough=[mc('link', 5)]),
                histories=[(hist(g.network, [25, 40]), 200, 5000), (hist(g.network, [25, 40], True), 120, 3000), (long.link, 4, 40)]),
}
