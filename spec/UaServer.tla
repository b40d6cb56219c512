------------------------------ MODULE UaServer ------------------------------
(* The OPC UA server: three components that exchange messages.               *)
(*   transport        connections: Hello, framing, association of a secure   *)
(*                    channel, supervision                                   *)
(*   secure channel   channels: opening, closing, token and sequence numbers *)
(*   service          sessions and the services                              *)
(* Every component is a set of functions from its state and one input to its *)
(* next state and outputs. What a message says is taken from it by the       *)
(* operators below, so that the same functions describe the components over  *)
(* bytes (TraceUa) and over records (MCUa).                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Pool,          \* connections, channels, sessions, at most
          RxTime,        \* time a peer may stay silent
          NoCh, NoSid,   \* no channel; no session
          Succ(_),       \* of a sequence number
          FrameOf(_),    \* received bytes -> [r |-> "more" | "bad" | "wild" | "ok", ty, ck, ch, d]
          HelloOf(_),    \* what follows the header of a Hello: "ok" | "fail" | "wild"
          OpnOf(_),      \* -> [r, seq, rid, h, life]
          CloOf(_),      \* -> [r, tok, seq, rid, h]
          MsgOf(_),      \* -> [r, tok, seq, rid, d]
          SvcOf(_)       \* -> [r, svc, h, auth, x]

Empty == [x \in {} |-> 0]
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

-----------------------------------------------------------------------------
(* Transport. cons: link -> connection                                       *)
(*   st  "hello" (nothing but a Hello is accepted) | "conn"                  *)
(*   id  the number of the connection in messages; 0: not yet seen           *)
(*   as  the channel associated, or NoCh                                     *)
T0 == [up |-> FALSE, lis |-> -1, cons |-> Empty, now |-> 0, n |-> 0]

Out(t, post, tx) == [st |-> t, post |-> post, tx |-> tx, wild |-> FALSE]
Nop(t)    == Out(t, <<>>, <<>>)
WildOut(t) == [st |-> t, post |-> <<>>, tx |-> <<>>, wild |-> TRUE]

RelInd(c, ch) == [m |-> "relind", c |-> c, ch |-> ch]

\* the connection ends; whoever serves its channel is told
TEnd(t, k) ==
    LET c == t.cons[k] IN
    Out([t EXCEPT !.cons = Without(@, k)], IF c.as # NoCh THEN <<RelInd(c.id, c.as)>> ELSE <<>>, <<>>)

TLive(t) == Cardinality(DOMAIN t.cons)
TAccept(t, k, id) ==
    Nop([t EXCEPT !.cons = With(@, k, [st |-> "hello", buf |-> <<>>, id |-> id, as |-> NoCh, dl |-> t.now + RxTime,
                                       o |-> t.n, sf |-> FALSE]),
                  !.n = @ + 1])

\* send a frame; a link that can not take it ends the connection
TSend(t, k, pre, f, after) ==
    IF t.cons[k].sf
    THEN LET r == TEnd(t, k) IN [r EXCEPT !.post = pre \o @]
    ELSE Out(after, pre, << <<k, f>> >>)

Restart(t, k) == [t EXCEPT !.cons[k].dl = t.now + RxTime, !.cons[k].o = t.n, !.cons[k].buf = <<>>, !.n = @ + 1]

\* cid: the number of the connection, if it has not been seen before
TData(t, k, d, cid) ==
    LET c == t.cons[k]
        b == c.buf \o d
        f == FrameOf(b)
        id == IF c.id # 0 THEN c.id ELSE cid
        fwd == [m |-> f.ty, c |-> id, ch |-> f.ch, ck |-> f.ck, d |-> f.d]
    IN  IF f.r = "wild" THEN WildOut(t)
        ELSE IF f.r = "more" THEN Nop([t EXCEPT !.cons[k].buf = b])
        ELSE IF f.r = "bad" THEN TEnd(t, k)
        ELSE IF c.st = "hello"
        THEN IF f.ty # "hel" THEN TEnd(t, k)
             ELSE CASE HelloOf(f.d) = "wild" -> WildOut(t)
                    [] HelloOf(f.d) = "fail" -> TEnd(t, k)
                    [] HelloOf(f.d) = "ok"   -> TSend(t, k, <<>>, [ty |-> "ack"], [Restart(t, k) EXCEPT !.cons[k].st = "conn"])
        ELSE IF f.ty = "opn" \/ (f.ty \in {"msg", "clo"} /\ c.as # NoCh /\ c.as = f.ch)
        THEN Out([Restart(t, k) EXCEPT !.cons[k].id = id], <<fwd>>, <<>>)
        ELSE TEnd(t, k)

TFind(t, c) == {k \in DOMAIN t.cons : c # 0 /\ t.cons[k].id = c}
\* a connection whose number has not been seen could be the one meant
TUnsure(t) == \E k \in DOMAIN t.cons : t.cons[k].id = 0 /\ t.cons[k].st = "conn"

TReceive(t, m) ==
    IF ~t.up THEN Nop(t)
    ELSE IF m.c < 1 \/ m.c > Pool THEN WildOut(t)
    ELSE LET K == TFind(t, m.c) IN
         IF K = {} \/ t.cons[CHOOSE x \in K : TRUE].st # "conn"
         THEN IF K = {} /\ TUnsure(t) THEN WildOut(t)
              ELSE IF m.m = "opnr" THEN Out(t, <<RelInd(m.c, m.ch)>>, <<>>)     \* nobody waits for it
              ELSE Nop(t)
         ELSE LET k == CHOOSE x \in K : TRUE
                  c == t.cons[k]
                  f(ty) == [ty |-> ty, ck |-> m.ck, ch |-> m.ch, d |-> m.d]
              IN  CASE m.m = "opnr" ->
                         LET t1 == [t EXCEPT !.cons[k].as = m.ch] IN
                         TSend(t1, k, IF c.as # NoCh /\ c.as # m.ch THEN <<RelInd(m.c, c.as)>> ELSE <<>>, f("opn"), t1)
                    [] m.m \in {"clor", "send"} ->
                         IF c.as = NoCh \/ c.as # m.ch THEN TEnd(t, k)
                         ELSE TSend(t, k, <<>>, f(IF m.m = "send" THEN "msg" ELSE "clo"), t)
                    [] m.m = "relreq" -> TEnd(t, k)

\* time passes: connections silent for too long end, one after another
RECURSIVE TExpire(_, _)
TExpire(t, post) ==
    LET D == {k \in DOMAIN t.cons : t.cons[k].dl <= t.now} IN
    IF D = {} THEN Out(t, post, <<>>)
    ELSE LET k == CHOOSE x \in D : \A y \in D : t.cons[x].dl < t.cons[y].dl \/ (t.cons[x].dl = t.cons[y].dl /\ t.cons[x].o <= t.cons[y].o)
             r == TEnd(t, k)
         IN  TExpire(r.st, post \o r.post)
TTick(t, n) == TExpire([t EXCEPT !.now = @ + n], <<>>)

-----------------------------------------------------------------------------
(* Secure channels. chans: id -> [c, tok, rs, ts, sid]: the connection it    *)
(* was opened on, its token, the last sequence number received, the last one *)
(* sent, the session it serves                                               *)
S0 == [up |-> FALSE, chans |-> Empty]

RelReq(c) == [m |-> "relreq", c |-> c]
SEnd(s, ch, post) ==
    Out([s EXCEPT !.chans = Without(@, ch)], Append(post, RelReq(s.chans[ch].c)), <<>>)

\* x: what the component chooses: [ch, tok, seq]
SOpen(s, m, x) ==
    LET q == OpnOf(m.d) IN
    IF q.r = "wild" \/ m.ck # 70 THEN WildOut(s)
    ELSE IF Cardinality(DOMAIN s.chans) >= Pool THEN Nop(s)
    ELSE IF q.r = "fail" THEN Out(s, <<RelReq(m.c)>>, <<>>)
    ELSE Out([s EXCEPT !.chans = With(@, x.ch, [c |-> m.c, tok |-> x.tok, rs |-> q.seq, ts |-> x.seq, sid |-> NoSid])],
             <<[m |-> "opnr", c |-> m.c, ch |-> x.ch, ck |-> 70, seq |-> x.seq, rid |-> q.rid, h |-> q.h, tok |-> x.tok,
                life |-> q.life]>>, <<>>)

SReceive(s, m, x) ==
    IF ~s.up THEN Nop(s)
    ELSE IF m.m = "opn" THEN SOpen(s, m, x)
    ELSE IF m.ch \notin DOMAIN s.chans THEN Nop(s)
    ELSE LET e == s.chans[m.ch] IN
         IF e.c # m.c THEN Nop(s)          \* not the connection it was opened on
         ELSE CASE m.m = "relind" -> Out([s EXCEPT !.chans = Without(@, m.ch)], <<>>, <<>>)
                [] m.m = "assoc"  -> Nop([s EXCEPT !.chans[m.ch].sid = m.sid])
                [] m.m = "enc"    ->
                     IF e.sid # NoSid /\ e.sid # m.sid THEN Nop(s)
                     ELSE Out([s EXCEPT !.chans[m.ch].ts = Succ(@)],
                              <<[m |-> "send", c |-> m.c, ch |-> m.ch, ck |-> 70, tok |-> e.tok, seq |-> Succ(e.ts),
                                 rid |-> m.rid, d |-> m.d]>>, <<>>)
                [] m.m = "clo"    ->
                     LET q == CloOf(m.d) IN
                     IF m.ck # 70 THEN WildOut(s)
                     ELSE IF q.r = "short" \/ q.tok # e.tok \/ q.seq # Succ(e.rs) THEN SEnd(s, m.ch, <<>>)
                     ELSE IF q.r = "wild" THEN WildOut(s)
                     ELSE IF q.r = "fail" THEN SEnd(s, m.ch, <<>>)
                     ELSE SEnd(s, m.ch, <<[m |-> "clor", c |-> m.c, ch |-> m.ch, ck |-> 70, tok |-> e.tok,
                                           seq |-> Succ(e.ts), rid |-> q.rid, h |-> q.h]>>)
                [] m.m = "msg"    ->
                     LET q == MsgOf(m.d) IN
                     IF m.ck # 70 THEN WildOut(s)
                     ELSE IF q.r = "fail" \/ q.tok # e.tok \/ q.seq # Succ(e.rs) THEN SEnd(s, m.ch, <<>>)
                     ELSE Out([s EXCEPT !.chans[m.ch].rs = q.seq],
                              <<[m |-> "ind", c |-> m.c, ch |-> m.ch, rid |-> q.rid, sid |-> e.sid, d |-> q.d]>>, <<>>)

-----------------------------------------------------------------------------
(* Service. sess: id -> [st |-> "created" | "active", ch]                    *)
V0 == [up |-> FALSE, sess |-> Empty]

Answer(m, sid, svc, h, x) ==
    [m |-> "enc", c |-> m.c, ch |-> m.ch, rid |-> m.rid, sid |-> sid, svc |-> svc, h |-> h, x |-> x]

\* y: the number chosen for a new session
VReceive(v, m, y) ==
    IF ~v.up THEN Nop(v)
    ELSE LET q == SvcOf(m.d) IN
         IF q.r = "wild" THEN WildOut(v)
         ELSE IF q.r = "fail" THEN Nop(v)
         ELSE CASE q.svc = 428 -> Out(v, <<Answer(m, m.sid, 431, q.h, <<>>)>>, <<>>)
                [] q.svc = 461 ->
                     IF Cardinality(DOMAIN v.sess) >= Pool THEN Nop(v)
                     ELSE Out([v EXCEPT !.sess = With(@, y, [st |-> "created", ch |-> NoCh])],
                              <<Answer(m, m.sid, 464, q.h, <<y, q.x>>)>>, <<>>)
                [] q.svc \in {467, 473} ->
                     IF q.auth \notin DOMAIN v.sess THEN Nop(v)
                     ELSE IF q.svc = 467
                     THEN Out([v EXCEPT !.sess[q.auth] = [st |-> "active", ch |-> m.ch]],
                              <<[m |-> "assoc", c |-> m.c, ch |-> m.ch, rid |-> m.rid, sid |-> q.auth],
                                Answer(m, q.auth, 470, q.h, <<>>)>>, <<>>)
                     ELSE Out([v EXCEPT !.sess = Without(@, q.auth)], <<Answer(m, m.sid, 476, q.h, <<>>)>>, <<>>)
                [] q.svc = 631 ->
                     IF m.sid \in DOMAIN v.sess /\ v.sess[m.sid].st = "active" /\ v.sess[m.sid].ch = m.ch
                     THEN Out(v, <<Answer(m, m.sid, 634, q.h, <<>>)>>, <<>>)
                     ELSE Nop(v)
=============================================================================
