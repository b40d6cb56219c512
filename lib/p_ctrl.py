"""Checks of the controller."""
import gen_app as ga
import gen_ctrl as g
import gen_long as long

DRIVER = 'ct_drv'
TRACE = 'TraceController'
CONST = {}


def mc(nops, rounds, bad, gen=True, **kw):
    return dict(module='MCController', constants=dict(NOps=nops, NRounds=rounds, Bad=bad, Gen=gen),
                invariants=['Agree', 'Determined', 'Both'], gen=gen, wrap=g.concrete, sample=400, **kw)


def hist(f, ln):
    return lambda rng: f(rng, rng.choice(ln))


LIFE, TEST = hist(g.life, [20, 40, 80]), hist(g.test, [60, 120])
ALIFE, ASERVE = hist(ga.life, [3, 5, 8]), hist(ga.serve, [8, 15, 30])
APP = dict(driver='ap_drv', trace='TraceSystem', const={'Rv': '<- Pattern'})


def sysm(nops, ntime, ncut, gen=False, **kw):
    return dict(module='MCSystem', constants=dict(NOps=nops, NTime=ntime, NCut=ncut, Gen=gen, Rv='<- Pattern'),
                invariants=['Agrees', 'Passes', 'Determined'], gen=gen, wrap=ga.concrete, sample=60, tsample=1500, **kw)


SRED = dict(sysm(2, 2, 1), invariants=['Agrees', 'Passes', 'Determined', 'Reduced'])
SLIVE = dict(sysm(2, 3, 1), spec='FairSpec', properties=['Settles'])
LIVE = dict(mc(3, 3, True, gen=False), spec='FairSpec', properties=['Settles', 'Watches'])
PROPS = {
    'K01': dict(chans=['life', 'res'], models=dict(quick=[mc(2, 1, True)], thorough=[mc(3, 2, True), mc(4, 2, True, gen=False), LIVE]),
                histories=[(LIFE, 500, 10000), (TEST, 20, 500), (long.starts, 3, 30)]),
    'K02': dict(chans=['life', 'test', 'res'], models=dict(quick=[mc(1, 3, True)], thorough=[mc(2, 3, True), LIVE]),
                histories=[(TEST, 350, 8000), (LIFE, 80, 2000), (long.rounds, 1, 5)]),
    # the deployed application
    'K03': dict(APP, chans=['skip', 'life'], models=dict(quick=[sysm(2, 2, 1, True), sysm(3, 2, 0)], thorough=[sysm(2, 4, 1, True), sysm(4, 3, 0), sysm(3, 5, 2), SLIVE, SRED]),
                histories=[(ALIFE, 60, 2000), (hist(ga.serve, [5]), 5, 50)]),
    'K04': dict(APP, chans=['skip', 'life', 'serve', 'wire'], models=dict(quick=[sysm(1, 8, 2, True)], thorough=[sysm(1, 12, 3, True), sysm(2, 8, 2)]),
                histories=[(ASERVE, 50, 1500), (hist(ga.life, [4]), 10, 100)]),
}
