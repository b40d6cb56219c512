------------------------------- MODULE Modbus -------------------------------
(* The Modbus component: clients and servers created by configuration.       *)
(* Step(st, i, sid) is the state after input i and what can be observed of   *)
(* it; sid is the session id the implementation chose, if it had to choose.  *)
EXTENDS ModbusClient, ModbusServer, FiniteSets, TLC

Empty == [x \in {} |-> 0]
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]

(* The state                                                                 *)
(*   up, ns, nc   initialised, with room for ns servers and nc clients       *)
(*   cli   client id -> client          srv   server id -> address           *)
(*   con   connection -> its session    nk    connections accepted so far    *)
(*   last  connection -> <<server, session>> of its last request             *)
(*   xl, xt, cf   faults: next link / timer can not be had, next connect to  *)
(*                this address fails                                         *)
(*   wild  what follows is not determined                                    *)
Init0 == [up |-> FALSE, ns |-> 0, nc |-> 0, cli |-> Empty, srv |-> Empty, con |-> Empty,
          nk |-> 0, last |-> Empty, xl |-> FALSE, xt |-> FALSE, cf |-> {}, wild |-> FALSE]

NoOut == [skip |-> 0, acc |-> -1, rsp |-> <<>>, fwd |-> <<>>, msg |-> <<>>,
          tx |-> Empty, ctx |-> Empty, att |-> Empty]
R(st, o) == [st |-> st, o |-> o]
Skip(st) == R(st, [NoOut EXCEPT !.skip = 1])

Fun1(k, v) == (k :> v)
TxOf(cl, tx) == IF tx = <<>> THEN Empty ELSE Fun1(cl.p, tx)
AttOf(cl, n) == IF n = 0 THEN Empty ELSE Fun1(cl.p, n)

ClientAt(st, p) == {c \in DOMAIN st.cli : st.cli[c].p = p}
ServerAt(st, a) == {s \in DOMAIN st.srv : st.srv[s] = a}

\* the client with the fault of its address applied
Armed(st, c) == [st.cli[c] EXCEPT !.cf = st.cli[c].p \in st.cf]
Disarm(cf, cl) == IF cl.cf THEN cf ELSE cf \ {cl.p}
Plain(cl) == [cl EXCEPT !.cf = FALSE]

\* a result of one client becomes a result of the component
OfClient(st, c, r) ==
    R([st EXCEPT !.cli = (c :> Plain(r.cl)) @@ st.cli, !.cf = Disarm(st.cf, r.cl)],
      [NoOut EXCEPT !.rsp = r.rsp, !.tx = TxOf(r.cl, r.tx), !.att = AttOf(r.cl, r.att)])

OfConn(st, k, r) ==
    R([st EXCEPT !.con = IF r.open THEN (k :> r.c) @@ st.con ELSE Without(st.con, {k}),
                 !.wild = st.wild \/ r.wild],
      [NoOut EXCEPT !.fwd = r.fwd, !.ctx = IF r.tx = <<>> THEN Empty ELSE Fun1(k, r.tx)])

-----------------------------------------------------------------------------
(* Configuration. *)
DropServer(st, s) ==
    [st EXCEPT !.con = Without(st.con, {k \in DOMAIN st.con : st.con[k].sv = s}),
               !.srv = Without(st.srv, {s})]

\* one item; result [st, att, ok]
ConfigItem(st, it) ==
    IF it.m = "c"
    THEN IF it.id >= st.nc THEN [st |-> st, att |-> Empty, ok |-> TRUE]
         ELSE IF st.xl \/ st.xt
         THEN [st |-> [st EXCEPT !.wild = st.wild \/ it.id \in DOMAIN st.cli], att |-> Empty, ok |-> FALSE]
         ELSE LET fails == it.a \in st.cf
                  r == ToConnect([NewClient(it.id, it.a) EXCEPT !.cf = fails])
              IN  [st |-> [st EXCEPT !.cli = (it.id :> r.cl) @@ st.cli, !.cf = st.cf \ {it.a}],
                   att |-> Fun1(it.a, 1), ok |-> ~fails]
    ELSE IF it.id >= st.ns THEN [st |-> st, att |-> Empty, ok |-> TRUE]
         ELSE LET d == DropServer(st, it.id)
              IN  [st |-> [d EXCEPT !.srv = (it.id :> it.a) @@ d.srv], att |-> Empty, ok |-> TRUE]

Sum2(f, g) == [x \in DOMAIN f \cup DOMAIN g |->
                 (IF x \in DOMAIN f THEN f[x] ELSE 0) + (IF x \in DOMAIN g THEN g[x] ELSE 0)]

RECURSIVE ConfigItems(_, _)
ConfigItems(st, items) ==
    IF items = <<>> THEN [st |-> st, att |-> Empty, ok |-> TRUE]
    ELSE LET a == ConfigItem(st, Head(items)) IN
         IF ~a.ok THEN a
         ELSE LET b == ConfigItems(a.st, Tail(items))
              IN  [st |-> b.st, att |-> Sum2(b.att, a.att), ok |-> b.ok]

Config(st, items) ==
    IF ~st.up THEN R([st EXCEPT !.xl = FALSE, !.xt = FALSE], NoOut)
    ELSE LET r == ConfigItems(st, items)
             m == [m |-> "cfg", items |-> [i \in 1..Len(items) |-> [id |-> items[i].id, s |-> 0]]]
         IN  R([r.st EXCEPT !.xl = FALSE, !.xt = FALSE],
               [NoOut EXCEPT !.att = r.att, !.msg = IF r.ok THEN <<m>> ELSE <<>>])

-----------------------------------------------------------------------------
(* Requests of the user. *)
RECURSIVE Requests(_, _)
Requests(st, items) ==
    IF items = <<>> THEN R(st, NoOut)
    ELSE LET r == Head(items)
             c == r.c
             one == IF c \in DOMAIN st.cli
                    THEN OfClient(st, c, Request(st.cli[c], r))
                    ELSE R(st, [NoOut EXCEPT !.rsp = <<ErrRsp(c, r)>>])
             rest == Requests([one.st EXCEPT !.cf = st.cf], Tail(items))
         IN  R(rest.st, [NoOut EXCEPT !.rsp = one.o.rsp \o rest.o.rsp])

-----------------------------------------------------------------------------
(* Time. *)
RECURSIVE ConcatOver(_, _)
ConcatOver(f, S) == IF S = {} THEN <<>>
                    ELSE LET x == CHOOSE y \in S : TRUE IN f[x] \o ConcatOver(f, S \ {x})

Tick(st, n) ==
    LET cr == [c \in DOMAIN st.cli |-> Advance(Armed(st, c), n)]
        sr == [k \in DOMAIN st.con |-> SAdvance(st.con[k], n)]
        PT == {c \in DOMAIN cr : cr[c].tx # <<>>}
        PA == {c \in DOMAIN cr : cr[c].att # 0}
        used == {st.cli[c].p : c \in {x \in DOMAIN cr : st.cli[x].p \in st.cf /\ ~cr[x].cl.cf}}
    IN  R([st EXCEPT !.cli = [c \in DOMAIN cr |-> Plain(cr[c].cl)],
                     !.con = [k \in {x \in DOMAIN sr : sr[x].open} |-> sr[k].c],
                     !.cf = st.cf \ used],
          [NoOut EXCEPT
             !.rsp = ConcatOver([c \in DOMAIN cr |-> cr[c].rsp], DOMAIN cr),
             !.tx  = [p \in {st.cli[c].p : c \in PT} |->
                        cr[CHOOSE c \in PT : st.cli[c].p = p].tx],
             !.att = [p \in {st.cli[c].p : c \in PA} |->
                        cr[CHOOSE c \in PA : st.cli[c].p = p].att]])

-----------------------------------------------------------------------------
(* Connections to a server. *)
Accept(st, i) ==
    IF ServerAt(st, i.a) = {} THEN Skip(st)
    ELSE LET s == CHOOSE x \in ServerAt(st, i.a) : TRUE
             used == {k \in DOMAIN st.con : st.con[k].sv = s}
             st1 == [st EXCEPT !.xl = FALSE, !.xt = FALSE]
         IN  IF i.op = "accf" \/ st.xl \/ st.xt \/ Cardinality(used) >= MaxSessions
             THEN R(st1, NoOut)
             ELSE R([st1 EXCEPT !.con = (st.nk :> NewConn(s)) @@ st.con, !.nk = st.nk + 1],
                    [NoOut EXCEPT !.acc = st.nk])

ByPeer(st, p, ok, F(_)) ==
    LET S == {c \in ClientAt(st, p) : st.cli[c].lk \in ok}
    IN  IF S = {} THEN Skip(st)
        ELSE LET c == CHOOSE x \in S : TRUE IN OfClient(st, c, F(Armed(st, c)))

ByConn(st, k, F(_)) ==
    IF k \notin DOMAIN st.con THEN Skip(st) ELSE OfConn(st, k, F(st.con[k]))

\* a request of connection k is forwarded as session sid
Forwarded(r, k, sid) ==
    IF r.o.fwd = <<>> THEN r
    ELSE [r EXCEPT !.st.con[k].sid = sid,
                   !.st.last = (k :> <<r.st.con[k].sv, sid>>) @@ r.st.last]

\* the answer of the application, addressed to session sid of server sv
Answered(st, sv, sid, i) ==
    IF ~st.up \/ sv \notin DOMAIN st.srv THEN R(st, NoOut)
    ELSE LET K == {k \in DOMAIN st.con : st.con[k].sv = sv /\ st.con[k].sid = sid}
             open == \E k \in DOMAIN st.con : st.con[k].sv = sv /\ st.con[k].sid = -1
                                              /\ st.con[k].st = "wait"
         IN  IF K # {} THEN LET k == CHOOSE x \in K : TRUE
                            IN  OfConn(st, k, Answer(st.con[k], i.tid, i.e, i.st, i.d))
             ELSE R([st EXCEPT !.wild = st.wild \/ open], NoOut)

-----------------------------------------------------------------------------
Fresh(st, up, ns, nc) ==
    [Init0 EXCEPT !.up = up, !.ns = ns, !.nc = nc, !.nk = st.nk, !.last = st.last,
                  !.xl = st.xl, !.xt = st.xt, !.cf = st.cf, !.wild = st.wild]

\* more bytes at once than one ADU can have: how much of it is read is not determined
TooMuch(st, i) == Len(i.d) > 250 \/ \E c \in ClientAt(st, i.p) : Len(st.cli[c].rx) + Len(i.d) > MaxAdu - 1
TooMuchS(st, i) == Len(i.d) > 250 \/ (i.k \in DOMAIN st.con /\ Len(st.con[i.k].rx) + Len(i.d) > MaxAdu - 1)

(* State and observations after input i. sid: the session id under which a   *)
(* request is forwarded, a choice of the server.                             *)
Step(st, i, sid) ==
    CASE i.op = "init" -> R(Fresh(st, TRUE, i.s, i.c), [NoOut EXCEPT !.msg = <<[m |-> "init"]>>])
      [] i.op = "rel"  -> R(Fresh(st, FALSE, 0, 0), [NoOut EXCEPT !.msg = <<[m |-> "rel"]>>])
      [] i.op = "cfg"  -> Config(st, i.items)
      [] i.op = "req"  -> IF st.up THEN Requests(st, i.items) ELSE R(st, NoOut)
      [] i.op = "lc"   -> ByPeer(st, i.p, {1}, Connected)
      [] i.op = "le"   -> ByPeer(st, i.p, {1, 2}, LinkError)
      [] i.op = "leof" -> ByPeer(st, i.p, {2}, LinkError)
      [] i.op = "ld"   -> ByPeer([st EXCEPT !.wild = st.wild \/ TooMuch(st, i)], i.p, {2},
                                 LAMBDA cl : Data(cl, i.d))
      [] i.op = "sf"   -> ByPeer(st, i.p, {2}, LAMBDA cl : Res([cl EXCEPT !.sf = TRUE]))
      [] i.op = "cf"   -> R([st EXCEPT !.cf = st.cf \cup {i.p}], NoOut)
      [] i.op = "xl"   -> R([st EXCEPT !.xl = TRUE], NoOut)
      [] i.op = "xt"   -> R([st EXCEPT !.xt = TRUE], NoOut)
      [] i.op = "tick" -> Tick(st, i.n)
      [] i.op \in {"acc", "accf"} -> Accept(st, i)
      [] i.op = "sd"   -> Forwarded(ByConn([st EXCEPT !.wild = st.wild \/ TooMuchS(st, i)], i.k,
                                           LAMBDA c : SData(c, i.d)), i.k, sid)
      [] i.op \in {"seof", "sle"} -> ByConn(st, i.k, SLinkError)
      [] i.op = "ssf"  -> ByConn(st, i.k, LAMBDA c : SRes([c EXCEPT !.sf = TRUE]))
      [] i.op = "arsp" -> IF i.k \in DOMAIN st.last
                          THEN Answered(st, st.last[i.k][1], st.last[i.k][2], i) ELSE Skip(st)
      [] i.op = "arspx" -> Answered(st, i.sv, i.sid, i)

\* a session id must not be in use for another connection of the server
SidFree(st, k, sid) ==
    /\ sid >= 0
    /\ \A x \in DOMAIN st.con : x # k /\ st.con[x].sv = st.con[k].sv => st.con[x].sid # sid
    /\ st.con[k].sid \in {-1, sid}

\* links as their peers see them, and the most the component may hold
LinksUp(st)   == {<<st.cli[c].p, st.cli[c].lk>> : c \in {x \in DOMAIN st.cli : st.cli[x].lk # 0}}
OpenConns(st) == DOMAIN st.con
Holds(st)     == [l |-> Cardinality(DOMAIN st.cli) + Cardinality(DOMAIN st.con),
                  a |-> Cardinality(DOMAIN st.srv)]
=============================================================================
