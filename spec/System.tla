------------------------------- MODULE System -------------------------------
(* The deployed application: the controller, the Modbus component and the    *)
(* OPC UA components, each with a thread and a queue of messages of its own; *)
(* the Modbus client of the application talks to its own Modbus server over  *)
(* the network. Succs(s) are the states one step of one thread, or of the    *)
(* network, leads to; at rest there are none. Time is counted in 10 ms.      *)
EXTENDS UaBytes

CONSTANT Rv                                  \* the pattern of the self-test

C == INSTANCE Controller
B == INSTANCE Modbus WITH QCap <- 64, MaxSessions <- 256
U == INSTANCE UaServer WITH Pool <- 32, RxTime <- 300, NoCh <- <<"none">>, NoSid <- <<127, 255, 255, 255>>, Succ <- Succ32, FrameOf <- BFrame, HelloOf <- BHello,
                            OpnOf <- BOpn, CloOf <- BClo, MsgOf <- BMsg, SvcOf <- BSvc

(* The state                                                                 *)
(*   c, m, t, s, v   controller, Modbus, transport, channels, service        *)
(*   qc, qm, qu      messages to the controller, to Modbus, to OPC UA        *)
(*   sl, wk          the controller pauses for sl before its first test; it  *)
(*                   has paused                                              *)
(*   tap    the connection of the Modbus client to the server                *)
(*   dy     connections both ends of which were closed                       *)
(*   mk     connections of other Modbus clients: client -> number            *)
(*   w, tx  what went over the network; what other clients were sent         *)
NoTap == [st |-> "none", lc |-> FALSE, k |-> -1, q |-> <<>>, q2 |-> <<>>, a |-> <<>>, a2 |-> <<>>, ce |-> FALSE, se |-> FALSE]
Down == [c |-> C!Init0, m |-> B!Init0, t |-> U!T0, s |-> U!S0, v |-> U!V0, qc |-> <<>>, qm |-> <<>>, qu |-> <<>>, sl |-> 0, wk |-> FALSE,
         tap |-> NoTap, dy |-> <<>>, mk |-> [x \in {} |-> 0], w |-> <<>>, tx |-> <<>>, wild |-> FALSE]

MbAddr == C!Local(47, 113)
UaAddr == C!Local(17, 17)
FirstPause == 200

\* addresses listened on
Listens(x) == {x.m.srv[k] : k \in DOMAIN x.m.srv} \cup (IF x.t.up /\ x.t.lis # -1 THEN {UaAddr} ELSE {})

\* consecutive pieces in one direction are one
Wire(x, e, b) ==
    LET n == Len(x.w) IN
    IF n > 0 /\ e \in {"q", "a"} /\ x.w[n].e = e THEN [x EXCEPT !.w[n].b = @ \o b]
    ELSE [x EXCEPT !.w = Append(@, [e |-> e, b |-> b])]

-----------------------------------------------------------------------------
(* Controller *)
Short(e) == IF e.m \in {"madu", "mcfg"} THEN C!M(e.m) ELSE e                \* these are always the same
ToMb(out) == LET f == SelectSeq(out, LAMBDA e : e.m \in {"minit", "mrel", "mcfg", "madu", "arsp"}) IN [j \in 1..Len(f) |-> Short(f[j])]
\* the OPC UA components share a thread: what they are told at a time is one message
ToUa(out) == SelectSeq(out, LAMBDA e : e.m \in {"tinit", "trel", "tcfg"})
OfCtl(x, r) == [x EXCEPT !.c = r.st, !.qm = @ \o ToMb(r.out), !.qu = @ \o ToUa(r.out), !.wild = @ \/ r.st.wild]

CtlStep(x) ==
    IF x.sl > 0 \/ x.qc = <<>> THEN {}
    ELSE LET i == Head(x.qc) IN
         IF i.op = "mcfg" /\ x.c.mb = "conf" /\ ~x.wk THEN {[x EXCEPT !.sl = FirstPause, !.wk = TRUE]}
         ELSE {OfCtl([x EXCEPT !.qc = Tail(@), !.wk = FALSE], C!Step(x.c, i, Rv))}

-----------------------------------------------------------------------------
(* Modbus *)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))

CrspOf(a) == [op |-> "crsp", cid |-> a.c, tid |-> a.th * 256 + a.tl, err |-> a.e, st |-> 1 - a.s, d |-> a.d]
\* messages to the controller; k: the connection a request came from
ToCtl(o, m, k) ==
    LET told == SelectSeq(o.msg, LAMBDA e : e.m # "rel") IN              \* nothing follows from the others
    [j \in 1..Len(told) |-> [op |-> IF told[j].m = "init" THEN "minit" ELSE "mcfg"]]
    \o [j \in 1..Len(o.rsp) |-> CrspOf(o.rsp[j])]
    \o [j \in 1..Len(o.fwd) |-> LET q == o.fwd[j] IN
          [op |-> "areq", sv |-> m.con[k].sv, sid |-> k, tid |-> q.tid, f |-> q.f, a |-> q.a, si |-> q.si, ni |-> q.ni, d |-> q.d]]

ClientUp(m) == \E c \in DOMAIN m.cli : m.cli[c].lk # 0
PeerOf(x, k) == CHOOSE p \in DOMAIN x.mk : x.mk[p] = k

\* the ends of the connection after the Modbus component did something
Ends(x) ==
    LET p == x.tap
        cgone == ~ClientUp(x.m)
        sgone == p.k # -1 /\ p.k \notin DOMAIN x.m.con
    IN  IF p.st \notin {"conn", "open"} THEN x
        ELSE IF cgone /\ (sgone \/ p.k = -1)
        THEN [x EXCEPT !.tap = NoTap, !.dy = Append(@, [q |-> p.q, a |-> p.a, half |-> p.k = -1])]
        ELSE IF cgone \/ sgone THEN [x EXCEPT !.tap.st = "ending", !.tap.ce = ~cgone, !.tap.se = ~sgone /\ p.k # -1]
        ELSE x

\* there: the server listens where the client connects to
OfMb(x, r, k, there) ==
    LET x1 == [x EXCEPT !.m = r.st, !.qc = @ \o ToCtl(r.o, r.st, k), !.wild = @ \/ r.st.wild]
        x2 == Ends(x1)
        x3 == IF r.o.att = B!Empty THEN x2
              ELSE Wire([x2 EXCEPT !.tap = [NoTap EXCEPT !.st = IF there THEN "conn" ELSE "ref", !.lc = there]], IF there THEN "conn" ELSE "ref", <<>>)
        x4 == IF r.o.tx = B!Empty THEN x3 ELSE [x3 EXCEPT !.tap.q = @ \o r.o.tx[MbAddr]]
        K == DOMAIN r.o.ctx
    IN  IF K = {} THEN x4
        ELSE LET n == CHOOSE y \in K : TRUE IN
             IF n = x4.tap.k THEN [x4 EXCEPT !.tap.a = @ \o r.o.ctx[n]]
             ELSE [x4 EXCEPT !.tx = Append(@, <<PeerOf(x4, n), r.o.ctx[n]>>)]

There(m) == B!ServerAt(m, MbAddr) # {}
Item(it) == [m |-> IF it.mode = "client" THEN "c" ELSE "s", id |-> it.id, a |-> it.a]
Req(it)  == [c |-> it.cid, th |-> it.tid \div 256, tl |-> it.tid % 256, f |-> it.f, a |-> it.a, si |-> it.si, ni |-> it.ni, d |-> it.d]

MbMsg(x) ==
    IF x.qm = <<>> THEN {}
    ELSE LET e == Head(x.qm)
             y == [x EXCEPT !.qm = Tail(@)]
             One(i) == {OfMb(y, B!Step(x.m, i, -1), -1, There(x.m))}
         IN  CASE e.m = "minit" -> One([op |-> "init", s |-> e.s, c |-> e.c])
               [] e.m = "mrel"  -> One([op |-> "rel"])
               [] e.m = "madu"  -> One([op |-> "req", items |-> [j \in 1..C!NCases |-> Req(C!Requests(Rv).items[j])]])
               [] e.m = "arsp"  -> One([op |-> "arspx", sv |-> e.sv, sid |-> e.sid, tid |-> e.tid, e |-> e.err, st |-> 1 - e.st, d |-> e.d])
               [] e.m = "mcfg"  -> \* the order is not determined: the client finds the server there, or does not yet
                    {OfMb(y, B!Step(x.m, [op |-> "cfg", items |-> [j \in 1..2 |-> Item(C!Config.items[IF first = "client" THEN j ELSE 3 - j])]], -1), -1, first = "server") :
                       first \in {"client", "server"}}

MbLink(x) ==
    LET p == x.tap IN
    (IF p.st = "ref" THEN {OfMb([x EXCEPT !.tap = NoTap], B!Step(x.m, [op |-> "le", p |-> MbAddr], -1), -1, FALSE)} ELSE {})
    \cup (IF p.lc THEN {OfMb([x EXCEPT !.tap.lc = FALSE], B!Step(x.m, [op |-> "lc", p |-> MbAddr], -1), -1, FALSE)} ELSE {})
    \cup (IF p.st = "conn" /\ There(x.m)
          THEN LET r == B!Step(x.m, [op |-> "acc", a |-> MbAddr], -1) IN {OfMb([x EXCEPT !.tap.st = "open", !.tap.k = r.o.acc], r, -1, FALSE)} ELSE {})
    \cup (IF p.st = "open" /\ p.q2 # <<>>
          THEN {OfMb([x EXCEPT !.tap.q2 = <<>>], B!Forwarded(B!ByConn(x.m, p.k, LAMBDA c : B!SData(c, p.q2)), p.k, p.k), p.k, FALSE)} ELSE {})
    \cup (IF p.st = "open" /\ ~p.lc /\ p.a2 # <<>>
          THEN {OfMb([x EXCEPT !.tap.a2 = <<>>], B!ByPeer(x.m, MbAddr, {2}, LAMBDA cl : B!Data(cl, p.a2)), -1, FALSE)} ELSE {})
    \cup (IF p.st = "dead" /\ p.ce THEN {OfMb([x EXCEPT !.tap.ce = FALSE, !.tap.st = IF p.se THEN "dead" ELSE "none"], B!Step(x.m, [op |-> "leof", p |-> MbAddr], -1), -1, FALSE)} ELSE {})
    \cup (IF p.st = "dead" /\ p.se THEN {OfMb([x EXCEPT !.tap.se = FALSE, !.tap.st = IF p.ce THEN "dead" ELSE "none"], B!Step(x.m, [op |-> "seof", k |-> p.k], -1), -1, FALSE)} ELSE {})

\* the network
Maybe(x, e, b) == IF b = <<>> THEN {x} ELSE {x, Wire(x, e, b)}
Net(x) ==
    LET p == x.tap IN
    (IF p.st \in {"conn", "open"} /\ p.q # <<>> THEN {Wire([x EXCEPT !.tap.q = <<>>, !.tap.q2 = @ \o p.q], "q", p.q)} ELSE {})
    \cup (IF p.st = "open" /\ p.a # <<>> THEN {Wire([x EXCEPT !.tap.a = <<>>, !.tap.a2 = @ \o p.a], "a", p.a)} ELSE {})
    \cup (IF p.st = "ending"
          THEN {Wire([z EXCEPT !.tap = [NoTap EXCEPT !.st = IF p.ce \/ p.se THEN "dead" ELSE "none", !.k = p.k, !.ce = p.ce, !.se = p.se]], "end", <<>>) :
                  z \in UNION {Maybe(y, "a", p.a) : y \in Maybe(x, "q", p.q)}} ELSE {})
    \cup (IF x.dy # <<>>
          THEN LET d == Head(x.dy)
                   y == [x EXCEPT !.dy = Tail(@)]
                   E == {Wire(z, "end", <<>>) : z \in UNION {Maybe(z1, "a", d.a) : z1 \in Maybe(y, "q", d.q)}}
               IN  IF d.half THEN E \cup {y} ELSE E
          ELSE {})

-----------------------------------------------------------------------------
(* OPC UA: messages of the controller *)
UaMsg(x) ==
    IF x.qu = <<>> THEN {}
    ELSE LET m == Head(x.qu).m
             y == [x EXCEPT !.qu = Tail(@)]
         IN  {CASE m = "tinit" -> [y EXCEPT !.qc = Append(@, [op |-> m]), !.s = [U!S0 EXCEPT !.up = TRUE], !.v = [U!V0 EXCEPT !.up = TRUE],
                                           !.t = [U!T0 EXCEPT !.up = TRUE, !.now = x.t.now, !.n = x.t.n]]
                [] m = "trel"  -> [y EXCEPT !.s = U!S0, !.v = U!V0, !.t = [U!T0 EXCEPT !.now = x.t.now, !.n = x.t.n]]
                [] m = "tcfg"  -> IF x.t.up THEN [y EXCEPT !.t.lis = 0] ELSE y}

(* What clients send: handled to the end at once, the components share a     *)
(* thread. ch: [ch, tok, seq] chosen, sid: session chosen.                   *)
WithD(m) == CASE m.m \in {"opnr", "clor"} -> m @@ [d |-> m]
              [] m.m = "send" -> [m EXCEPT !.d = m]
              [] m.m = "enc"  -> m @@ [d |-> [svc |-> m.svc, h |-> m.h, x |-> m.x]]
              [] OTHER -> m
RECURSIVE UaRun(_, _, _, _, _)
UaRun(x, q, tx, ch, sid) ==
    IF q = <<>> \/ x.wild THEN [x |-> x, tx |-> tx]
    ELSE LET m == WithD(Head(q))
             Go(y, r) == UaRun([y EXCEPT !.wild = @ \/ r.wild], Tail(q) \o r.post, tx \o r.tx, ch, sid)
         IN  CASE m.m \in {"opnr", "clor", "send", "relreq"} -> LET r == U!TReceive(x.t, m) IN Go([x EXCEPT !.t = r.st], r)
               [] m.m = "ind" -> LET r == U!VReceive(x.v, m, sid) IN Go([x EXCEPT !.v = r.st], r)
               [] OTHER       -> LET r == U!SReceive(x.s, m, ch) IN Go([x EXCEPT !.s = r.st], r)
UaInput(x, r, ch, sid) == UaRun([x EXCEPT !.t = r.st, !.wild = @ \/ r.wild], r.post, r.tx, ch, sid)

-----------------------------------------------------------------------------
Succs(x) == CtlStep(x) \cup MbMsg(x) \cup MbLink(x) \cup Net(x) \cup UaMsg(x)
\* enough of the successors to come to all states at rest. What the controller does next, and what OPC UA does unless it confirms something, does not depend on what
\* the others do meanwhile, nor that on it: these are not taken in other orders
First(x) == LET c == CtlStep(x) IN
            IF c # {} THEN c
            ELSE IF x.qu # <<>> /\ Head(x.qu).m # "tinit" THEN UaMsg(x)
            ELSE Succs(x)

MinOf(S) == CHOOSE a \in S : \A b \in S : a <= b
\* when something happens by itself
Deadlines(x) ==
    {x.m.con[k].t : k \in DOMAIN x.m.con}
    \cup {x.m.cli[c].t : c \in {y \in DOMAIN x.m.cli : x.m.cli[y].t > 0}}
    \cup (IF x.sl > 0 THEN {x.sl} ELSE {})
    \cup (IF x.c.mb = "pause" THEN {(x.c.t + 9) \div 10} ELSE {})
Elapse(x, d) ==
    LET y == OfMb(x, B!Tick(x.m, d), -1, There(x.m))
        z == [y EXCEPT !.sl = IF @ > d THEN @ - d ELSE 0]
    IN  OfCtl(z, C!Tick(z.c, Rv, 10 * d))
=============================================================================
