"""Checks of the log."""
import gen_log as g

DRIVER = 'lg_drv'
TRACE = 'TraceLog'
CONST = {}


def mc(last, nops, some, sample=400):
    return dict(module='MCLog', constants=dict(Last=last, NOps=nops, Some=set(some), Gen=True),
                invariants=['Calendar', 'Asked', 'Others', 'Worse', 'Apart'], sample=sample)


def hist(f, ln):
    return lambda rng: f(rng, rng.choice(ln))


PROPS = {
    'G01': dict(chans=['lv', 'line'], models=dict(quick=[mc(1980, 2, [1, 2, 3, 4, 5, 6, 7])], thorough=[mc(2260, 3, [1, 3, 6])]),
                histories=[(hist(g.history, [10, 25, 40]), 150, 1500), (g.threads, 6, 100)]),
}
