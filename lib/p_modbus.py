"""Checks of the Modbus properties."""
import gen_long as long
import gen_modbus as g

DRIVERS = ['mb_drv']
DRIVER = 'mb_drv'
TRACE = 'TraceModbus'
CONST = {'QCap': 64, 'MaxSessions': 256}

CLIENT_INV = ['ExactlyOnce', 'SendOrder', 'QueueOrder', 'OneOutstanding', 'LinkFits', 'AnsweredSoon', 'TriesAgain']
SERVER_INV = ['ReplyOnce', 'Sessions', 'IdleCloses']
ADMIN_INV = ['LinkFits', 'ReleaseClean', 'Sessions', 'IdleCloses', 'AnsweredSoon', 'TriesAgain']


def mc(mode, nreq, nconn, qcap=1, ms=2):
    return dict(module='MCModbus', constants=dict(Mode=mode, NReq=nreq, NConn=nconn, Gen=True, QCap=qcap, MaxSessions=ms),
                invariants={'client': CLIENT_INV, 'server': SERVER_INV, 'admin': ADMIN_INV}[mode],
                properties=['Sound'] if mode == 'client' else [])


def live():
    return dict(module='MCModbus', constants=dict(Mode='client', NReq=2, NConn=0, Gen=False, QCap=1, MaxSessions=1),
                invariants=[], properties=['AllAnswered', 'Reconnects'], spec='FairSpec', gen=False)


CLIENT = dict(quick=[mc('client', 2, 0)], thorough=[mc('client', 2, 0), mc('client', 3, 0, 2), live()])
SERVER = dict(quick=[mc('server', 1, 2)], thorough=[mc('server', 1, 2), mc('server', 2, 2)])
ADMIN = dict(quick=[mc('admin', 1, 1)], thorough=[mc('admin', 1, 1), mc('admin', 2, 1)])


def hist(f, ln):
    return lambda rng: f(rng, rng.choice(ln))


L = [25, 40, 60]
C, S, M = hist(g.client_history, L), hist(g.server_history, L), hist(g.mixed_history, L)

# property -> channels compared, models, histories (generator, quick, thorough)
PROPS = {
    'M01': dict(chans=['skip', 'rsp'], models=CLIENT, histories=[(C, 450, 12000), (M, 100, 2000), (g.long_client, 6, 200), (long.client, 1, 20)]),
    'M02': dict(chans=['skip', 'rsp'], models=CLIENT, histories=[(C, 550, 14000), (g.long_client, 4, 200), (long.client, 2, 20)]),
    'M03': dict(chans=['skip', 'att', 'up', 'rsp'], models=CLIENT, histories=[(C, 500, 12000), (M, 60, 1000), (long.reconnect, 4, 40)]),
    'M04': dict(chans=['skip', 'tx', 'rsp'], models=CLIENT, histories=[(C, 550, 14000), (g.long_client, 4, 200), (long.client, 2, 20)]),
    'M05': dict(chans=['skip', 'acc', 'adu', 'open'], models=SERVER, histories=[(S, 600, 14000), (long.server, 2, 20)]),
    'M06': dict(chans=['skip', 'acc', 'ctx', 'adu'], models=SERVER, histories=[(S, 600, 14000), (long.server, 2, 20)]),
    'M07': dict(chans=['skip', 'acc', 'open', 'res'], models=SERVER,
                histories=[(S, 450, 10000), (g.many_sessions, 1, 8), *[(g.churner(m), 1, 6) for m in range(12)]]),
    'M08': dict(chans=['skip', 'msg', 'rsp', 'att', 'acc', 'adu', 'ctx', 'open', 'up', 'res'], models=ADMIN,
                histories=[(M, 500, 12000), (long.client, 1, 10), (long.server, 1, 10)]),
}
