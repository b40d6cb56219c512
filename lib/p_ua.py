"""Checks of the OPC UA server."""
import gen_lib as lib
import gen_long as long
import gen_ua as g

DRIVER = 'ua_drv'
TRACE = 'TraceUa'
CONST = {'Pool': 32}
ALL = ['skip', 'init', 'T.acc', 'T.fwd', 'T.rel', 'T.open', 'T.res', 'T.tx', 'S.in', 'S.out', 'S.rel', 'V.read', 'V.disc', 'V.sess', 'e2e']
INV = ['Isolation', 'Distinct', 'Bounded', 'NoOrphans', 'Greeted', 'Told', 'SilenceEnds', 'Bound']
EVERY = {'open', 'clo', 'gep', 'create', 'activate', 'close', 'read'}


def mc(links, reqs, sess, faults, what=EVERY, atomic=False, gen=True, sample=500, pool=0, **kw):
    return dict(module='MCUa', constants=dict(Pool=pool or links, Links=links, Reqs=reqs, Sess=sess, Faults=faults, What=set(what), Atomic=atomic, Gen=gen),
                invariants=INV, gen=gen, sample=sample, wrap=g.concrete, **kw)


def hist(f, ln):
    return lambda rng: f(rng, rng.choice(ln))


L = [40, 60, 90]
E2E, T, S, V, J, A, W = (hist(f, L) for f in (g.serve, g.transport, g.channel, g.service, g.junk, g.admin, g.sessions))
CONN, CHANS, SESS = (lambda rng, w=w: g.many(rng, w) for w in ('conn', 'chan', 'sess'))
CHAN = {'open', 'clo', 'gep'}
FAIR = dict(mc(1, 2, 1, 1, {'open', 'clo', 'create', 'activate', 'read'}, gen=False), spec='FairSpec', properties=['Drains'])
DEEP = [mc(2, 3, 1, 1, gen=False), mc(2, 3, 1, 2, atomic=True, gen=False), mc(3, 2, 0, 1, CHAN, gen=False), mc(2, 3, 1, 1, gen=False, pool=1)]
# connections and channels: two clients with one fault in quick
M1 = dict(quick=[mc(1, 2, 0, 2, CHAN), mc(2, 2, 0, 1, CHAN)], thorough=[mc(2, 2, 0, 2, CHAN), *DEEP[2:], FAIR])
# sessions
M2 = dict(quick=[mc(1, 3, 1, 1)], thorough=[mc(1, 4, 1, 2), mc(2, 3, 1, 1, atomic=True), *DEEP[:2], FAIR])
# several clients, one session
M3 = dict(quick=[mc(1, 3, 1, 1, sample=300), mc(2, 3, 1, 0, {'open', 'create', 'activate', 'read'}, atomic=True)], thorough=M2['thorough'] + M1['thorough'])
TCH = ['skip', 'T.acc', 'T.fwd', 'T.rel', 'T.open', 'T.tx']
SCH = ['skip', 'S.in', 'S.out', 'S.rel']
VCH = ['skip', 'V.read', 'V.disc', 'V.sess']
CUT = [(g.churner(h), 1, 10) for h in ('half', 'halfhello', 'stale')]

MSG, READ, CYCLE, LOGIN = (lambda rng, w=w: long.ua(rng, w) for w in ('msg', 'read', 'cycle', 'login'))
LC = hist(lib.channels, [20, 40])


def time_(last, wrap):
    return dict(module='MCTime', constants=dict(Last=last, Gen=True), invariants=['Counts', 'Meets'], sample=60, tsample=200, wrap=wrap)


PROPS = {
    'U01': dict(chans=['skip', 'T.acc', 'T.fwd', 'T.open', 'T.tx', 'e2e'], models=M1, histories=[(E2E, 150, 3000), (T, 250, 5000), (J, 150, 3000), *CUT, (MSG, 1, 5)]),
    'U02': dict(chans=TCH, models=M1, histories=[(E2E, 120, 2500), (T, 350, 8000), (J, 60, 2000), *CUT, (MSG, 1, 5)]),
    'U03': dict(chans=['skip', 'T.acc', 'T.rel', 'T.open', 'T.res', 'S.rel', 'S.out'], models=M1,
                histories=[(E2E, 120, 3000), (T, 200, 4000), (CONN, 3, 60), (long.users, 1, 10), *[(g.churner(h), 1, 20) for h in g.ENDS]]),
    'U04': dict(chans=SCH, models=M1, histories=[(E2E, 120, 3000), (S, 350, 8000), (J, 60, 2000), (MSG, 1, 5)]),
    'U05': dict(chans=['skip', 'S.out', 'e2e'], models=M2, histories=[(E2E, 120, 3000), (W, 60, 1000), (S, 350, 8000), (READ, 1, 5), (CYCLE, 1, 5)]),
    'U06': dict(chans=[*SCH, 'T.rel'], models=M1, histories=[(E2E, 120, 2500), (S, 300, 5000), (CHANS, 3, 60), (long.users, 1, 10), *[(g.churner(h), 1, 10) for h in g.ENDS]]),
    'U07': dict(chans=['skip', 'V.read', 'S.in', 'V.sess', 'e2e'], models=M2, histories=[(E2E, 80, 3000), (W, 150, 4000), (V, 300, 8000), (g.churner('session'), 2, 20), (LOGIN, 1, 5), (READ, 1, 5), (CYCLE, 1, 5)]),
    'U08': dict(chans=VCH, models=M2, histories=[(E2E, 120, 2500), (V, 350, 8000), (SESS, 2, 40), (CYCLE, 1, 5)]),
    'U09': dict(chans=[c for c in ALL if c not in ('init', 'T.res')], models=M3, histories=[(E2E, 350, 12000), (W, 100, 3000), (long.ua, 1, 20)]),
    'U10': dict(chans=ALL, models=dict(quick=[mc(1, 2, 0, 2, CHAN)], thorough=M1['thorough']), histories=[(J, 350, 10000), (T, 60, 1000), (S, 60, 1000), (V, 80, 1000)]),
    'U11': dict(chans=ALL, models=dict(quick=[mc(1, 2, 0, 1, CHAN)], thorough=M1['thorough']), histories=[(A, 300, 10000), (g.again, 120, 3000)]),
    # answers of both servers, each at any time of day
    'U12': dict(parts=[
        dict(chans=['time'], models=dict(quick=[time_(2500, g.clocks(E2E, ('dlv',)))], thorough=[time_(9999, g.clocks(E2E, ('dlv',)))]),
             histories=[(g.clocked(E2E), 100, 3000), (g.clocked(V), 60, 1500), (g.clocked(S), 60, 1500)]),
        dict(name='lib', driver='lb_drv', trace='TraceLib', const={}, chans=['time'], models=dict(quick=[time_(2100, g.clocks(LC, ('d',)))]),
             histories=[(g.clocked(LC), 150, 4000)])]),
}
