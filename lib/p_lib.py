"""Checks of the OPC UA protocol library."""
import gen_lib as g
import gen_long as long

DRIVER = 'lb_drv'
TRACE = 'TraceLib'
CONST = {}
INV = ['Sense', 'Knows', 'Clean', 'Bound', 'Over']


def mc(kind, nops, gen=True, sample=500):
    return dict(module='MCLib', constants=dict(Kind=kind, NOps=nops, Gen=gen), invariants=INV, gen=gen, sample=sample, wrap=g.concrete(kind))


def hist(f, ln):
    return lambda rng: f(rng, rng.choice(ln))


L = [20, 40, 80]
PROPS = {
    'L01': dict(chans=['k.ev', 'k.tx', 'k.lk', 'k.att', 'res'],
                models=dict(quick=[mc('client', 5), mc('server', 5)],
                            thorough=[mc('client', 7, sample=4000), mc('server', 7, sample=4000), mc('client', 9, False), mc('server', 9, False)]),
                histories=[(hist(g.connections, L), 500, 12000), (lambda r: long.lib(r, 'client'), 2, 20), (lambda r: long.lib(r, 'server'), 2, 20), (hist(g.mixed, L), 60, 2000)]),
    'L03': dict(chans=['q.ev', 'q.tx', 'q.lk', 'q.att', 'res'],
                models=dict(quick=[mc('cchan', 6)], thorough=[mc('cchan', 8, sample=6000), mc('cchan', 10, False)]),
                histories=[(hist(g.clients, L), 500, 12000), (lambda r: long.lib(r, 'cchan'), 3, 30), (hist(g.mixed, L), 60, 2000)]),
    'L02': dict(chans=['c.ev', 'c.tx', 'c.lk', 'res'],
                models=dict(quick=[mc('chan', 6)], thorough=[mc('chan', 8, sample=6000), mc('chan', 9, False)]),
                histories=[(hist(g.channels, L), 500, 12000), (lambda r: long.lib(r, 'chan'), 3, 30), (hist(g.mixed, L), 60, 2000)]),
}
