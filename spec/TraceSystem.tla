----------------------------- MODULE TraceSystem ----------------------------
(* Accepts the behaviours of the deployed application the specification      *)
(* allows. How its threads took turns is not recorded: all states consistent *)
(* with what was seen are kept. Channels compared: Chans.                    *)
EXTENDS System, Json, IOUtils

CONSTANT Chans

Traces == ndJsonDeserialize(IOEnv.TRACE)
Pattern == Traces[1].steps[1].o.rv            \* Rv

VARIABLES tr, l, poss, peers
vars == <<tr, l, poss, peers>>
\* peers: clients connected, number -> "ua" | "mb"

Restrict(f, S) == [x \in DOMAIN f \cap S |-> f[x]]

-----------------------------------------------------------------------------
(* what may have been seen so far *)
Begins(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
Fits(w, obs) ==
    /\ Len(w) <= Len(obs)
    /\ \A j \in 1..Len(w) : w[j].e = obs[j].e /\ IF j = Len(w) THEN Begins(w[j].b, obs[j].b) ELSE w[j].b = obs[j].b
Keep(S, obs) == IF "wire" \in Chans THEN {x \in S : Fits(x.w, obs)} ELSE {[x EXCEPT !.w = <<>>] : x \in S}

\* thread n takes a turn: it does some of what it has to do
Turn(x, n) == CASE n = 1 -> MbMsg(x) \cup MbLink(x) [] n = 2 -> UaMsg(x) [] n = 3 -> CtlStep(x) [] n = 9 -> Net(x) [] OTHER -> {}
RECURSIVE Reach(_, _, _, _)
Reach(F, seen, n, obs) ==
    IF F = {} THEN seen
    ELSE LET N == Keep(UNION {Turn(x, n) : x \in F}, obs) \ seen IN Reach(N, seen \cup N, n, obs)
RECURSIVE Turns(_, _, _)
Turns(S, ns, obs) == IF ns = <<>> THEN S ELSE Turns(Reach(S, S, Head(ns), obs), Tail(ns), obs)
\* the states at rest
RECURSIVE Rest(_, _, _)
Rest(F, done, obs) ==
    IF F = {} THEN done
    ELSE LET P == {<<x, First(x)>> : x \in F}
             R == {p \in P : p[2] = {}}
         IN  Rest(Keep(UNION {p[2] : p \in P}, obs), done \cup {p[1] : p \in R}, obs)
Settle(S, obs) == Rest(S, {}, obs)

RECURSIVE Pass(_, _, _)
Pass(x, n, obs) ==
    IF n = 0 THEN {x}
    ELSE LET D == Deadlines(x)
             d == IF D = {} THEN n ELSE MinOf(D \cup {n})
         IN  UNION {Pass(y, n - d, obs) : y \in Settle({Elapse(x, d)}, obs)}

-----------------------------------------------------------------------------
(* what OPC UA clients are sent *)
RECURSIVE Split(_)
Split(b) == IF b = <<>> THEN <<>>
            ELSE LET n == IF Len(b) < 8 THEN 0 ELSE b[5] + 256 * b[6] + 65536 * (b[7] + b[8]) IN
                 IF n < 8 \/ n > Len(b) THEN <<b>> ELSE <<SubSeq(b, 1, n)>> \o Split(SubSeq(b, n + 1, Len(b)))
Sent(o, k) == LET J == {j \in 1..Len(o.tx) : o.tx[j].k = k} IN IF J = {} THEN <<>> ELSE o.tx[CHOOSE j \in J : TRUE].d

Choice(o, k) ==
    LET F == Split(Sent(o, k))
        J == {j \in 1..Len(F) : BFrame(F[j]).r = "ok" /\ BFrame(F[j]).ty = "opn" /\ BOpnr(BFrame(F[j]).d).r = "ok"}
        q == BOpnr(BFrame(F[CHOOSE j \in J : TRUE]).d)
    IN  IF J = {} THEN [ch |-> <<"?">>, tok |-> Z4, seq |-> Z4] ELSE [ch |-> q.ch, tok |-> q.tok, seq |-> q.seq]
Session(o, k) ==
    LET F == Split(Sent(o, k))
        A(j) == BRsp(BMsg(BFrame(F[j]).d).d)
        J == {j \in 1..Len(F) : BFrame(F[j]).r = "ok" /\ BFrame(F[j]).ty = "msg" /\ A(j).svc = 464}
    IN  IF J = {} THEN <<"?">> ELSE A(CHOOSE j \in J : TRUE).x[1]

Says(f, b) ==
    IF f.ty = "ack" THEN b = Frame(f)
    ELSE LET g == BFrame(b)
             m == f.d
         IN  /\ g.r = "ok" /\ g.ty = f.ty /\ g.ck = f.ck /\ g.ch = f.ch
             /\ CASE f.ty = "opn" -> LET q == BOpnr(g.d) IN q.r = "ok" /\ q.ch = g.ch /\ q.seq = m.seq /\ q.rid = m.rid /\ q.h = m.h /\ q.tok = m.tok /\ q.life = m.life
                  [] f.ty = "clo" -> LET q == BClor(g.d) IN q.r = "ok" /\ q.seq = m.seq /\ q.rid = m.rid /\ q.h = m.h /\ q.tok = m.tok
                  [] f.ty = "msg" -> LET q == BMsg(g.d) IN q.r = "ok" /\ q.seq = m.seq /\ q.rid = m.rid /\ q.tok = m.tok /\ BRsp(q.d) = m.d
\* e: <<client, frame or bytes>> expected, in order
UaSays(e, k, b) ==
    LET f == SelectSeq(e, LAMBDA y : y[1] = k)
        F == Split(b)
    IN  Len(f) = Len(F) /\ \A j \in 1..Len(f) : Says(f[j][2], F[j])
MbSays(e, k, b) == b = Flat([j \in 1..Len(SelectSeq(e, LAMBDA y : y[1] = k)) |-> SelectSeq(e, LAMBDA y : y[1] = k)[j][2]])

-----------------------------------------------------------------------------
(* One step of one state: a set of [x, tx, r, skip] *)
Q(x, tx, r, skip) == [x |-> x, tx |-> tx, r |-> r, skip |-> skip]
Put(x, op) == [x EXCEPT !.qc = Append(@, [op |-> op])]
Dial(x, i) ==
    IF i.to = "ua" THEN IF UaAddr \in Listens(x) THEN Q([x EXCEPT !.t = U!TAccept(@, i.k, i.k + 1).st], <<>>, 0, 0) ELSE Q(x, <<>>, 1, 0)
    ELSE IF There(x.m) THEN LET r == B!Step(x.m, [op |-> "acc", a |-> MbAddr], -1) IN Q([OfMb(x, r, -1, FALSE) EXCEPT !.mk = (i.k :> r.o.acc) @@ @], <<>>, 0, 0)
    ELSE Q(x, <<>>, 1, 0)
ToServer(x, i, o) ==
    LET k == x.mk[i.k] IN OfMb(x, B!Forwarded(B!ByConn(x.m, k, LAMBDA c : B!SData(c, o.rx)), k, k), k, FALSE)
\* an answer that will come too late for a connection that ended: whom it reaches is left open
Late(x, i) == LET k == x.mk[i.k] IN k \in DOMAIN x.m.con /\ x.m.con[k].st = "wait" /\ x.m.con[k].q.ok
Client(x, i, o) ==
    IF peers[i.k] = "ua"
    THEN LET r == IF i.op = "d" THEN U!TData(x.t, i.k, o.rx, i.k + 1) ELSE U!TEnd(x.t, i.k)
             y == UaInput(x, r, Choice(o, i.k), Session(o, i.k))
         IN  Q(y.x, y.tx, 0, 0)
    ELSE IF i.op = "d" THEN Q(ToServer(x, i, o), <<>>, 0, 0)
    ELSE LET z == IF Late(x, i) THEN [x EXCEPT !.wild = TRUE] ELSE x
         IN  Q(OfMb(z, B!Step(x.m, [op |-> "seof", k |-> x.mk[i.k]], -1), -1, FALSE), <<>>, 0, 0)

SettleQ(q, obs) == {Q(y, q.tx, q.r, q.skip) : y \in Settle({q.x}, obs)}

Step1(x, i, o) ==
    LET w == o.wire IN
    CASE i.op \in {"start", "stop"} -> IF o.free = 0 THEN {Q(y, <<>>, 0, 0) : y \in Turns({Put(x, i.op)}, o.ran, w)} ELSE SettleQ(Q(Put(x, i.op), <<>>, 0, 0), w)
      [] i.op = "adv" ->
           {LET y == UaInput(z, U!TTick(z.t, i.n), [ch |-> <<"?">>, tok |-> Z4, seq |-> Z4], <<"?">>) IN Q(y.x, y.tx, 0, 0) :
              z \in UNION {Pass(y, 10 * i.n, w) : y \in Settle({x}, w)}}
      [] i.op = "cut" -> IF x.tap.st \in {"conn", "open"}
                         THEN SettleQ(Q([x EXCEPT !.tap = [NoTap EXCEPT !.st = "dead", !.ce = TRUE, !.se = TRUE, !.k = x.tap.k]], <<>>, 0, 0), w)
                         ELSE {Q(x, <<>>, 0, 1)}
      [] i.op = "dial" -> SettleQ(Dial(x, i), w)
      [] i.op \in {"d", "eof", "rst"} -> IF i.k \notin DOMAIN peers THEN {Q(x, <<>>, 0, 1)} ELSE SettleQ(Client(x, i, o), w)

\* clients still connected
Conn(x, p) == {k \in DOMAIN p : IF p[k] = "ua" THEN k \in DOMAIN x.t.cons ELSE x.mk[k] \in DOMAIN x.m.con}

-----------------------------------------------------------------------------
Lis(o) == {o.lis[j] : j \in 1..Len(o.lis)}
EofOf(o) == {o.eof[j] : j \in 1..Len(o.eof)}
\* the channels on which state x does not agree with what was seen; p: clients connected before
Differ(q, i, o, p) ==
    LET x == q.x
        D(ch, e, v) == IF e = v THEN {} ELSE {ch}
        gone == DOMAIN p \ Conn(x, p)
        says == \A k \in DOMAIN p \cup {o.tx[j].k : j \in 1..Len(o.tx)} :
                  LET b == Sent(o, k) IN
                  IF k \notin DOMAIN p THEN b = <<>>
                  ELSE IF p[k] = "ua" THEN UaSays(q.tx, k, b) ELSE MbSays(x.tx, k, b)
        all == D("skip", q.skip, o.skip) \cup D("life", q.r, o.r) \cup D("life", Listens(x), Lis(o))
               \cup (IF i.op \in {"start", "stop", "adv"} THEN D("life", gone, EofOf(o)) ELSE D("serve", gone, EofOf(o)))
               \cup (IF says THEN {} ELSE {"serve"}) \cup D("wire", x.w, o.wire)
    IN  all \cap Chans

Clean(x) == [x EXCEPT !.w = <<>>, !.tx = <<>>]

Init == /\ tr \in 1..Len(Traces)
        /\ l = 1
        /\ poss = {} /\ peers = [k \in {} |-> ""]

Steps == Traces[tr].steps
Over == l' = Len(Steps) + 1 /\ poss' = {} /\ peers' = [k \in {} |-> ""]
Done(k) == PrintT(<<"DONE", Traces[tr].id, k>>)
On(S, p) == /\ l = Len(Steps) => Done("ok")
            /\ l' = l + 1 /\ poss' = S /\ peers' = p
Bad(d) == PrintT(<<"MISMATCH", Traces[tr].id, l, ToJson(d)>>) /\ Over

\* poss = {} : the application is not running
Next ==
    /\ l <= Len(Steps)
    /\ tr' = tr
    /\ LET i == Steps[l].i
           o == Steps[l].o
       IN  IF i.op = "boot"
           THEN IF o.r \notin (IF "nocpu" \in DOMAIN i THEN {0, 1} ELSE {0}) \/ o.lis # <<>> \/ o.wire # <<>> \/ o.fds # 0 THEN Bad(<<"boot", o>>)
                ELSE On(IF o.r = 0 THEN {Down} ELSE {}, [k \in {} |-> ""])
           ELSE IF poss = {}
           THEN IF o.skip # 1 \/ o.tx # <<>> THEN Bad(<<"down", o>>) ELSE On({}, peers)
           ELSE IF i.op = "halt"
           THEN IF "life" \in Chans /\ (EofOf(o) # DOMAIN peers \/ o.lis # <<>> \/ o.fds # 0) THEN Bad(<<"halt", DOMAIN peers, o.eof, o.lis, o.fds>>)
                ELSE On({}, [k \in {} |-> ""])
           ELSE LET p == IF i.op = "dial" /\ o.r = 0 THEN (i.k :> i.to) @@ peers
                         ELSE IF i.op \in {"eof", "rst"} THEN Restrict(peers, DOMAIN peers \ {i.k}) ELSE peers
                    S == UNION {Step1(x, i, o) : x \in poss}
                    F == {q \in S : Differ(q, i, o, p) = {}}
                IN  IF \E q \in S : q.x.wild THEN Done("wild") /\ Over
                    ELSE IF F = {}
                    THEN Bad(LET q == IF S = {} THEN {} ELSE {CHOOSE y \in S : \A z \in S : Cardinality(Differ(y, i, o, p)) <= Cardinality(Differ(z, i, o, p))}
                             IN  {<<Differ(y, i, o, p), Listens(y.x), y.x.w, y.x.tx, DOMAIN p \ Conn(y.x, p), o>> : y \in q})
                    ELSE On({Clean(q.x) : q \in F}, Restrict(p, UNION {Conn(q.x, p) : q \in F}))

Spec == Init /\ [][Next]_vars
=============================================================================
