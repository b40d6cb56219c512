------------------------------- MODULE TraceUa ------------------------------
(* Accepts the behaviours of the OPC UA server the specification allows.     *)
(* Every component is judged on the inputs it really got. Channels: Chans.   *)
EXTENDS UaBytes, UaTime, Json, IOUtils

CONSTANTS Chans, Pool

NoCh   == <<"none">>
NoSid  == <<127, 255, 255, 255>>
RxTime == 300                                       \* in 100 ms
INSTANCE UaServer WITH Succ <- Succ32, FrameOf <- BFrame, HelloOf <- BHello, OpnOf <- BOpn, CloOf <- BClo, MsgOf <- BMsg, SvcOf <- BSvc

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr, l, st
vars == <<tr, l, st>>

\* e: what clients saw, by link; off: messages were made up, so the whole is no longer judged
Init0 == [t |-> T0, s |-> S0, v |-> V0, nk |-> 0, xl |-> FALSE, xt |-> FALSE, xa |-> FALSE, e |-> Empty, off |-> FALSE, wild |-> FALSE]

Pick(s, P(_)) == LET J == {j \in 1..Len(s) : P(s[j])} IN IF J = {} THEN <<>> ELSE <<s[CHOOSE j \in J : TRUE]>>

\* a recorded message, as the specification writes it
Abs(m) ==
    CASE m.m = "opnr" -> LET q == BOpnr(m.d) IN
                         IF q.r = "ok" /\ q.ch = m.ch
                         THEN [m |-> "opnr", c |-> m.c, ch |-> m.ch, ck |-> m.ck, seq |-> q.seq, rid |-> q.rid, h |-> q.h, tok |-> q.tok, life |-> q.life]
                         ELSE [m |-> "opnr", bad |-> m.d]
      [] m.m = "clor" -> LET q == BClor(m.d) IN
                         IF q.r = "ok"
                         THEN [m |-> "clor", c |-> m.c, ch |-> m.ch, ck |-> m.ck, tok |-> q.tok, seq |-> q.seq, rid |-> q.rid, h |-> q.h]
                         ELSE [m |-> "clor", bad |-> m.d]
      [] m.m = "send" -> LET q == BMsg(m.d) IN
                         IF q.r = "ok"
                         THEN [m |-> "send", c |-> m.c, ch |-> m.ch, ck |-> m.ck, tok |-> q.tok, seq |-> q.seq, rid |-> q.rid, d |-> q.d]
                         ELSE [m |-> "send", bad |-> m.d]
      [] m.m = "enc"  -> LET q == BRsp(m.d) IN
                         [m |-> "enc", c |-> m.c, ch |-> m.ch, rid |-> m.rid, sid |-> m.sid, svc |-> q.svc, h |-> q.h, x |-> q.x]
      [] OTHER -> m

TimesOf(m) == CASE m.m = "opnr" -> OpnrTimes(m.d) [] m.m = "clor" -> ClorTimes(m.d) [] m.m = "enc" -> RspTimes(m.d)

TKinds == {"opnr", "clor", "send", "relreq"}
SKinds == {"opn", "clo", "msg", "relind", "assoc", "enc"}

\* what the code chose, if it had a choice
Choice(o) ==
    LET p == Pick(o.post, LAMBDA m : m.m = "opnr")
        q == IF p = <<>> THEN BadOpnr ELSE BOpnr(p[1].d)
    IN  IF q.r = "ok" THEN [ch |-> p[1].ch, tok |-> q.tok, seq |-> q.seq] ELSE [ch |-> <<"?">>, tok |-> Z4, seq |-> Z4]
Session(o) ==
    LET p == Pick(o.post, LAMBDA m : m.m = "enc" /\ BRsp(m.d).svc = 464)
    IN  IF p = <<>> THEN <<"?">> ELSE BRsp(p[1].d).x[1]
ConnId(o) == LET p == Pick(o.post, LAMBDA m : m.m \in {"opn", "msg", "clo"}) IN IF p = <<>> THEN -1 ELSE p[1].c

Told(m) == [m |-> m]
Alive(x, k) == k \in DOMAIN x.t.cons

\* one step: [st, post, tx, skip, acc]
R(x, post, tx, skip, acc) == [st |-> x, post |-> post, tx |-> tx, skip |-> skip, acc |-> acc]
OfT(x, r) == R([x EXCEPT !.t = r.st, !.wild = r.wild], r.post, r.tx, 0, -1)
OfS(x, r) == R([x EXCEPT !.s = r.st, !.wild = r.wild], r.post, r.tx, 0, -1)
OfV(x, r) == R([x EXCEPT !.v = r.st, !.wild = r.wild], r.post, r.tx, 0, -1)
Skip(x)   == R(x, <<>>, <<>>, 1, -1)
Quiet(x)  == R(x, <<>>, <<>>, 0, -1)

Deliver(x, m, o) ==
    CASE m.m \in TKinds -> OfT(x, TReceive(x.t, m))
      [] m.m \in SKinds -> OfS(x, SReceive(x.s, m, Choice(o)))
      [] m.m = "ind"    -> OfV(x, VReceive(x.v, m, Session(o)))

Accept(x, i) ==
    LET y == [x EXCEPT !.xl = FALSE, !.xt = FALSE] IN
    IF ~x.t.up \/ x.t.lis # i.a THEN Skip(x)
    ELSE IF x.xl \/ i.op = "accf" THEN Quiet(y)
    ELSE LET z == [y EXCEPT !.nk = @ + 1] IN
         IF TLive(x.t) >= Pool \/ x.xt THEN R(z, <<>>, <<>>, 0, x.nk)
         ELSE R([z EXCEPT !.t = TAccept(x.t, x.nk, 0).st, !.e = With(@, x.nk, E0)], <<>>, <<>>, 0, x.nk)

Step(x, i, o) ==
    CASE i.op = "tinit" -> R([x EXCEPT !.t = [T0 EXCEPT !.up = TRUE, !.now = x.t.now, !.n = x.t.n], !.e = Empty], <<Told("tinit")>>, <<>>, 0, -1)
      [] i.op = "trel"  -> R([x EXCEPT !.t = [T0 EXCEPT !.now = x.t.now, !.n = x.t.n], !.e = Empty], <<Told("trel")>>, <<>>, 0, -1)
      [] i.op = "sinit" -> R([x EXCEPT !.s = [S0 EXCEPT !.up = TRUE]], <<Told("sinit")>>, <<>>, 0, -1)
      [] i.op = "srel"  -> R([x EXCEPT !.s = S0], <<Told("srel")>>, <<>>, 0, -1)
      [] i.op = "vinit" -> R([x EXCEPT !.v = [V0 EXCEPT !.up = TRUE]], <<Told("vinit")>>, <<>>, 0, -1)
      [] i.op = "vrel"  -> R([x EXCEPT !.v = V0], <<Told("vrel")>>, <<>>, 0, -1)
      [] i.op \in {"scfg", "vcfg", "clk"} -> Quiet(x)
      [] i.op = "tcfg"  -> Quiet([x EXCEPT !.t.lis = IF x.t.up /\ ~x.xa THEN i.a ELSE @, !.xa = FALSE])
      [] i.op = "xl" -> Quiet([x EXCEPT !.xl = TRUE])
      [] i.op = "xt" -> Quiet([x EXCEPT !.xt = TRUE])
      [] i.op = "xa" -> Quiet([x EXCEPT !.xa = TRUE])
      [] i.op \in {"acc", "accf"} -> Accept(x, i)
      [] i.op = "tick" -> OfT(x, TTick(x.t, i.n))
      [] i.op \in {"d", "eof", "le", "sf"} ->
           IF ~Alive(x, i.k) THEN Skip(x)
           ELSE CASE i.op = "d"  -> IF o.rx = <<>> THEN Quiet(x) ELSE OfT(x, TData(x.t, i.k, o.rx, ConnId(o)))
                  [] i.op = "sf" -> Quiet([x EXCEPT !.t.cons[i.k].sf = TRUE])
                  [] OTHER       -> OfT(x, TEnd(x.t, i.k))
      [] i.op = "dlv" -> IF o.dl.m = "none" THEN Skip(x) ELSE Deliver(x, o.dl, o)
      [] i.op = "inj" -> LET r == Deliver(x, o.dl, o) IN [r EXCEPT !.st.off = TRUE]

\* what clients see
Ask(x, i, o) ==
    IF i.op = "d" /\ Alive(x, i.k) /\ o.rx # <<>>
    THEN LET f == BFrame(x.t.cons[i.k].buf \o o.rx) IN
         IF f.r = "ok" /\ (f.ty = "hel") = (x.t.cons[i.k].st = "hello") THEN [x.e EXCEPT ![i.k] = EAsk(@, f)] ELSE x.e
    ELSE x.e

-----------------------------------------------------------------------------
Sel(s, K) == SelectSeq(s, LAMBDA m : m.m \in K)
Svc(s, K) == SelectSeq(s, LAMBDA m : m.m = "enc" /\ m.svc \in K \cup {0})
Kinds(s)  == [j \in 1..Len(s) |-> s[j].m]

Diffs(x, i, o, r) ==
    LET D(ch, e, v) == IF e = v THEN <<>> ELSE << <<ch, e, v>> >>
        post == [j \in 1..Len(o.post) |-> Abs(o.post[j])]
        P(ch, K) == D(ch, Sel(r.post, K), Sel(post, K))
        V(ch, K) == D(ch, Svc(r.post, K), Svc(post, K))
        open == DOMAIN r.st.t.cons
        tx == {<<r.tx[j][1], Frame(r.tx[j][2])>> : j \in 1..Len(r.tx)}
        cid == ConnId(o)
        ch == Choice(o).ch
        sid == Session(o)
        all ==
          D("skip", r.skip, o.skip)
          \o P("init", {"tinit", "trel", "sinit", "srel", "vinit", "vrel", "unknown"})
          \o D("init", IF r.st.t.lis < 0 THEN <<>> ELSE <<r.st.t.lis>>, o.lis)
          \o D("T.acc", r.acc, o.acc)
          \o P("T.fwd", {"opn", "clo", "msg"})
          \o (IF i.op = "d" /\ Alive(x, i.k) /\ x.t.cons[i.k].id = 0 /\ cid # -1
                   /\ (cid \notin 1..Pool \/ \E k \in DOMAIN x.t.cons : x.t.cons[k].id = cid)
                THEN << <<"T.fwd", "a connection of its own", cid>> >> ELSE <<>>)
          \o P("T.rel", {"relind"})
          \o D("T.open", open, {o.open[j] : j \in 1..Len(o.open)})
          \o (LET n == Cardinality(open) IN
                IF o.res.l <= n /\ o.res.t <= n /\ o.res.a <= (IF r.st.t.lis < 0 THEN 0 ELSE 1) THEN <<>> ELSE << <<"T.res", n, o.res>> >>)
          \o D("T.tx", tx, {<<o.tx[j].k, o.tx[j].d>> : j \in 1..Len(o.tx)})
          \o P("S.in", {"ind"})
          \o P("S.out", {"opnr", "clor", "send"})
          \o (IF ch # <<"?">> /\ ch \in DOMAIN x.s.chans THEN << <<"S.out", "a channel of its own", ch>> >> ELSE <<>>)
          \o D("S.rel", Sel(r.post, {"relreq"}), Sel(post, {"relreq"}))
          \o D("S.rel", Kinds(Sel(r.post, TKinds)), Kinds(Sel(post, TKinds)))
          \o V("V.read", {634})
          \o V("V.disc", {431})
          \o V("V.sess", {464, 470, 476})
          \o P("V.sess", {"assoc"})
          \o D("V.sess", Kinds(Sel(r.post, {"assoc", "enc"})), Kinds(Sel(post, {"assoc", "enc"})))
          \o (IF sid # <<"?">> /\ sid \in DOMAIN x.v.sess THEN << <<"V.sess", "a session of its own", sid>> >> ELSE <<>>)
          \o (IF "time" \in Chans
                THEN LET n == DateTime(o.tod.s, o.tod.us)
                         J == {j \in 1..Len(o.post) : o.post[j].m \in {"opnr", "clor", "enc"} /\ \E k \in DOMAIN TimesOf(o.post[j]) : TimesOf(o.post[j])[k] # n} IN
                     IF J = {} THEN <<>> ELSE << <<"time", n, [j \in J |-> TimesOf(o.post[j])]>> >>
                ELSE <<>>)
          \o (IF ~r.st.off
                THEN LET J == {j \in 1..Len(o.tx) : LET k == o.tx[j].k IN k \notin DOMAIN r.st.e \/ ~ETell(r.st.e[k], o.tx[j].d).ok} IN
                     IF J = {} THEN <<>> ELSE << <<"e2e", J, o.tx>> >>
                ELSE <<>>)
    IN  SelectSeq(all, LAMBDA d : d[1] \in Chans)

\* the code did not choose where it had to
Stuck(r) == \E j \in 1..Len(r.post) : \/ r.post[j].m = "opnr" /\ r.post[j].ch = <<"?">>
                                      \/ r.post[j].m = "enc" /\ r.post[j].svc = 464 /\ r.post[j].x[1] = <<"?">>
                                      \/ r.post[j].m \in {"opn", "msg", "clo"} /\ r.post[j].c = -1

After(r, o) ==
    [r.st EXCEPT !.e = [k \in DOMAIN @ \cap DOMAIN r.st.t.cons |->
        LET J == {j \in 1..Len(o.tx) : o.tx[j].k = k} IN IF J = {} THEN @[k] ELSE ETell(@[k], o.tx[CHOOSE j \in J : TRUE].d).e]]

Init == /\ tr \in 1..Len(Traces)
        /\ l = 1
        /\ st = Init0

Steps == Traces[tr].steps

Done(k) == PrintT(<<"DONE", Traces[tr].id, k>>)

Next ==
    /\ l <= Len(Steps)
    /\ tr' = tr
    /\ LET i == Steps[l].i
           o == Steps[l].o
           r0 == Step(st, i, o)
           r == [r0 EXCEPT !.st.e = IF i.op \in {"tinit", "trel"} THEN Empty ELSE IF i.op \in {"acc", "accf"} THEN @ ELSE Ask(st, i, o)]
       IN  IF r.st.wild
           THEN Done("wild") /\ l' = Len(Steps) + 1 /\ st' = Init0
           ELSE LET d == Diffs(st, i, o, r) IN
                IF d # <<>>
                THEN /\ PrintT(<<"MISMATCH", Traces[tr].id, l, ToJson(d)>>)
                     /\ l' = Len(Steps) + 1 /\ st' = Init0
                ELSE IF Stuck(r) THEN Done("other") /\ l' = Len(Steps) + 1 /\ st' = Init0
                ELSE /\ l = Len(Steps) => Done("ok")
                     /\ l' = l + 1
                     /\ st' = After(r, o)

Spec == Init /\ [][Next]_vars
=============================================================================
