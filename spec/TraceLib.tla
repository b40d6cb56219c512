------------------------------ MODULE TraceLib ------------------------------
(* Accepts the behaviours of the OPC UA library the specification allows.    *)
EXTENDS UaBytes, UaTime, Json, IOUtils

CONSTANT Chans

\* any type of message; its size is between 8 and 4096
LFrame(b) ==
    IF Len(b) < 8 THEN [r |-> "more", ty |-> "none", d |-> <<>>]
    ELSE IF b[7] # 0 \/ b[8] # 0 \/ b[5] + 256 * b[6] > 4096 THEN [r |-> "bad", ty |-> "none", d |-> <<>>]
    ELSE LET s == b[5] + 256 * b[6] IN
         IF Len(b) < s THEN [r |-> "more", ty |-> "none", d |-> <<>>]
         ELSE IF Len(b) > 4096 /\ s = 4096 THEN [r |-> "wild", ty |-> "none", d |-> <<>>]
         ELSE IF Len(b) # s THEN [r |-> "bad", ty |-> "none", d |-> <<>>]
         ELSE LET T == {t \in DOMAIN FrameType : FrameType[t] = SubSeq(b, 1, 3)}
                  t == IF T = {} THEN "none" ELSE CHOOSE x \in T : TRUE
                  h == IF t \in {"hel", "ack"} THEN 8 ELSE 12
              IN  [r |-> "ok", ty |-> t, d |-> IF s < h THEN <<>> ELSE Drop(b, h)]
LAck(d) == Whole(Dec("AcknowledgeMessage", d, 0), d).r
NoNum == <<"none">>
LOpnr(d) == LET x == Whole(DecAll(<<"SecurityHeader", "SequenceHeader", "OpenSecureChannelRspCont">>, d, 0, <<>>), d) q == BOpnr(d) IN
            IF x.r # "ok" THEN [r |-> x.r, rid |-> Z4, h |-> Z4] ELSE [r |-> IF q.r = "ok" THEN "ok" ELSE "wild", rid |-> q.rid, h |-> q.h]
\* a request for a channel without security
LOpnq(d) == LET x == Whole(DecAll(<<"SecurityHeader", "SequenceHeader", "OpenSecureChannelReqCont">>, d, 0, <<>>), d)
                q == BOpn(d) m == x.v[3][2]
            IN  IF x.r # "ok" \/ q.r # "ok" THEN [r |-> "fail", rid |-> <<"?">>, h |-> <<"?">>]
                ELSE [r |-> IF m[2] = Z4 /\ m[3] = Z4 /\ m[4] = <<0, 0, 0, 1>> /\ m[5] = <<>> THEN "ok" ELSE "fail", rid |-> q.rid, h |-> q.h]

L == INSTANCE UaLib WITH ConnTime <- 30, ShakeTime <- 10, LiveTime <- 100, MaxData <- 4072, None <- NoNum, Succ <- Succ32,
                         FrameOf <- LFrame, HelloOf <- BHello, AckOf <- LAck, OpnOf <- BOpn, OpnrOf <- LOpnr, MsgOf <- BMsg

Null == <<255, 255, 255, 255>>
B16  == <<0, 0, 1, 0>>                       \* 65536
Bytes(f) ==
    CASE f.ty = "hel" -> <<72, 69, 76, 70, 32, 0, 0, 0, 0, 0, 0, 0>> \o B16 \o B16 \o B16 \o <<136, 19, 0, 0>>
      [] f.ty = "rhe" -> <<82, 72, 69, 70, 16, 0, 0, 0>>
      [] f.ty = "ack" -> Frame(f)
      [] f.ty = "raw" -> f.d
      [] f.ty = "msg" -> Frame([ty |-> "msg", ck |-> 70, ch |-> f.ch, d |-> Rev(f.tok) \o Rev(f.seq) \o Rev(f.rid) \o f.d])
\* an absent string has length -1; an empty one will do as well
Strings == [hel |-> 1, rhe |-> 2]
RECURSIVE AllAbsent(_, _)
AllAbsent(b, n) == IF n = 0 THEN b = <<>> ELSE Len(b) >= 4 /\ SubSeq(b, 1, 4) \in {Null, <<0, 0, 0, 0>>} /\ AllAbsent(Drop(b, 4), n - 1)

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Bytes(s[1]) \o Flat(Tail(s))

SameTx(e, b) ==
    IF e # <<>> /\ e[1].ty = "opn"
    THEN /\ Len(e) = 1 /\ Len(b) >= 12 /\ SubSeq(b, 1, 4) = FrameType["opn"] \o <<70>>
         /\ SubSeq(b, 5, 8) = EncLen(Len(b)) /\ LE32(b, 8) = e[1].ch
         /\ LET q == BOpnr(Drop(b, 12)) f == e[1] IN
            q.r = "ok" /\ q.ch = f.ch /\ q.tok = f.tok /\ q.seq = f.seq /\ q.rid = f.rid /\ q.h = f.h /\ q.life = f.life
    ELSE IF e # <<>> /\ e[1].ty = "opnq"
    THEN /\ Len(e) = 1 /\ Len(b) >= 12 /\ SubSeq(b, 1, 4) = FrameType["opn"] \o <<70>>
         /\ SubSeq(b, 5, 8) = EncLen(Len(b)) /\ LE32(b, 8) = Z4 /\ LOpnq(Drop(b, 12)).r = "ok"
    ELSE IF e # <<>> /\ e[1].ty \in DOMAIN Strings
    THEN LET h == Bytes(e[1]) IN Len(e) = 1 /\ Len(b) >= Len(h) /\ SubSeq(b, 1, Len(h)) = h /\ AllAbsent(Drop(b, Len(h)), Strings[e[1].ty])
    ELSE b = Flat(e)

\* what the object chose
Choice(k, b) ==
    LET n == [ch |-> <<"?">>, tok |-> <<"?">>, seq |-> <<"?">>, rid |-> <<"?">>, h |-> <<"?">>] IN
    IF Len(b) < 24 THEN n
    ELSE IF k = "cchan"
    THEN IF SubSeq(b, 1, 3) # FrameType["opn"] THEN n ELSE LET q == LOpnq(Drop(b, 12)) IN [n EXCEPT !.rid = q.rid, !.h = q.h]
    ELSE IF SubSeq(b, 1, 3) = FrameType["opn"]
    THEN LET q == BOpnr(Drop(b, 12)) IN IF q.r = "ok" THEN [n EXCEPT !.ch = LE32(b, 8), !.tok = q.tok, !.seq = q.seq] ELSE n
    ELSE IF SubSeq(b, 1, 3) = FrameType["msg"]
    THEN LET q == BMsg(Drop(b, 12)) IN IF q.r = "ok" THEN [n EXCEPT !.ch = LE32(b, 8), !.tok = q.tok, !.seq = q.seq] ELSE n
    ELSE n

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr, l, st
vars == <<tr, l, st>>

\* objects by number; the time
Init0 == [ob |-> [k \in {} |-> 0], now |-> 0, wild |-> FALSE]

Pair(o) == [o |-> o.o, ev |-> o.ev, tx |-> o.tx, wild |-> o.wild]
\* one step: object -> what it does
Step(x, i, o) ==
    LET K == DOMAIN x.ob
        none == [k \in K |-> L!Nop(x.ob[k])]
        c(k) == Choice(x.ob[k].kind, o.ob[k + 1].tx)
        One(r) == [none EXCEPT ![i.k] = r]
        up == i.k \in K /\ x.ob[i.k].st \in {"shake", "live"}
    IN  CASE i.op = "new"  -> [k \in K \cup {i.k} |-> L!Nop(IF k = i.k THEN L!O0(i.kind) ELSE x.ob[k])]
          [] i.op = "clk"  -> none
          [] i.op = "tick" -> [k \in K |-> L!Tick(x.ob[k], x.now + i.n)]
          [] i.op = "con"  -> One(L!Connect(x.ob[i.k], x.now, i.f))
          [] i.op = "acc"  -> One(L!Take(x.ob[i.k], x.now, i.f))
          [] i.op = "cls"  -> One(L!Close(x.ob[i.k]))
          [] i.op = "re"   -> One(L!Nop([x.ob[i.k] EXCEPT !.re = [on |-> i.on, do |-> i.do, d |-> i.d]]))
          [] i.op = "snd"  -> One(L!Send(x.ob[i.k], i.d, c(i.k)))
          [] i.op = "lc"   -> IF x.ob[i.k].st = "conn" THEN One(L!Linked(x.ob[i.k], x.now)) ELSE none
          [] i.op = "le"   -> IF x.ob[i.k].st # "idle" THEN One(L!Lost(x.ob[i.k])) ELSE none
          [] i.op = "eof"  -> IF up THEN One(L!Lost(x.ob[i.k])) ELSE none
          [] i.op = "sf"   -> IF x.ob[i.k].st # "idle" THEN One(L!Nop([x.ob[i.k] EXCEPT !.sf = TRUE])) ELSE none
          [] i.op = "d"    -> IF up /\ o.rx # <<>> THEN One(L!Data(x.ob[i.k], x.now, o.rx, c(i.k))) ELSE none

LinkOf(s) == CASE s = "idle" -> 0 [] s = "conn" -> 1 [] OTHER -> 2

Diffs(x, i, o, r) ==
    LET Of(k) ==
          LET v == o.ob[k + 1]
              e == r[k]
              ch(n) == (CASE e.o.kind = "chan" -> "c." [] e.o.kind = "cchan" -> "q." [] OTHER -> "k.") \o n
              opn == "time" \in Chans /\ Len(v.tx) >= 12 /\ SubSeq(v.tx, 1, 3) = FrameType["opn"] /\ e.o.kind = "chan"
              t == IF opn THEN OpnrTimes(Drop(v.tx, 12)) ELSE <<>>
              td == DateTime(o.tod.s, o.tod.us)
          IN  (IF \A j \in DOMAIN t : t[j] = td THEN <<>> ELSE << <<"time", td, t>> >>)
              \o (IF e.ev = v.ev THEN <<>> ELSE << <<ch("ev"), e.ev, v.ev>> >>)
              \o (IF SameTx(e.tx, v.tx) THEN <<>> ELSE << <<ch("tx"), e.tx, v.tx>> >>)
              \o (IF LinkOf(e.o.st) = v.lk THEN <<>> ELSE << <<ch("lk"), e.o.st, v.lk>> >>)
        RECURSIVE All(_)
        All(S) == IF S = {} THEN <<>> ELSE LET k == CHOOSE y \in S : TRUE IN Of(k) \o All(S \ {k})
        n == Cardinality({k \in DOMAIN r : r[k].o.st # "idle"})
        att == IF i.op = "con" /\ L!Tries(x.ob[i.k], i.f) THEN <<i.a>> ELSE <<>>
        all == All(DOMAIN r)
          \o (IF o.res.l <= n /\ o.res.t <= n THEN <<>> ELSE << <<"res", n, o.res>> >>)
          \o (IF o.att = att THEN <<>> ELSE << <<IF i.op = "con" /\ x.ob[i.k].kind = "cchan" THEN "q.att" ELSE "k.att", att, o.att>> >>)
    IN  SelectSeq(all, LAMBDA d : d[1] \in Chans)

\* the code did not choose where it had to
Stuck(r) == \E k \in DOMAIN r : \E j \in 1..Len(r[k].tx) : r[k].tx[j].ty = "opn" /\ r[k].tx[j].ch = <<"?">>

Init == /\ tr \in 1..Len(Traces)
        /\ l = 1
        /\ st = Init0

Steps == Traces[tr].steps

Done(k) == PrintT(<<"DONE", Traces[tr].id, k>>)

Next ==
    /\ l <= Len(Steps)
    /\ tr' = tr
    /\ LET i == Steps[l].i
           o == Steps[l].o
           r == Step(st, i, o)
       IN  IF \E k \in DOMAIN r : r[k].wild
           THEN Done("wild") /\ l' = Len(Steps) + 1 /\ st' = Init0
           ELSE LET d == Diffs(st, i, o, r) IN
                IF d # <<>>
                THEN /\ PrintT(<<"MISMATCH", Traces[tr].id, l, ToJson(d)>>)
                     /\ l' = Len(Steps) + 1 /\ st' = Init0
                ELSE IF Stuck(r) THEN Done("other") /\ l' = Len(Steps) + 1 /\ st' = Init0
                ELSE /\ l = Len(Steps) => Done("ok")
                     /\ l' = l + 1
                     /\ st' = [ob |-> [k \in DOMAIN r |-> r[k].o], now |-> IF i.op = "tick" THEN st.now + i.n ELSE st.now, wild |-> FALSE]

Spec == Init /\ [][Next]_vars
=============================================================================
