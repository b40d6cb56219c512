------------------------------ MODULE Reactor -------------------------------
(* The reactor of one thread: a bounded queue of messages, one-shot timers,  *)
(* links and acceptors, all dispatched by one loop, one event at a time.     *)
(* Step(s, i) is the state after input i, once the loop has come to rest;    *)
(* what could be observed meanwhile is in the field o.                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS QCap,        \* messages the queue holds
          MaxLen,      \* bytes of a message
          Pool         \* timers, links and acceptors of a reactor

Empty == [x \in {} |-> 0]
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Put(f, x, v)  == (x :> v) @@ f
Min(a, b) == IF a < b THEN a ELSE b
NoObs == [skip |-> 0, r |-> <<>>, cnt |-> 0, rx |-> <<>>, fired |-> <<>>, ev |-> <<>>,
          acc |-> <<>>, prx |-> Empty, peof |-> {}, man |-> <<>>]

(* reg   message -> tag of its handler      q    messages waiting            *)
(* tm    timer -> [dl (-1 stopped), ord, acts]                               *)
(* lk    link -> [up, c (its peer), rd, end, dat, buf, eof, ev]              *)
(* ac    acceptor -> is it listening        want what the next accept gets   *)
(* pe    peer -> its link (-1 none)         lis  peers that listen           *)
(* ft, fl, fa   timers, links, acceptors of no further interest              *)
(* pend  what the loop will dispatch, in order                               *)
(* flt   system call -> times it will fail                                   *)
(* hit   which of the calls a reactor can do without fail now, if they are made *)
(* mc    component -> its reactor (routing)                                  *)
Init0 == [now |-> 0, reg |-> Empty, q |-> <<>>, tm |-> Empty, ord |-> 0,
          ft |-> 0, fl |-> 0, fa |-> 0, lk |-> Empty, ac |-> Empty, pe |-> Empty,
          lis |-> {}, want |-> [op |-> "none"], pend |-> <<>>, flt |-> Empty, hit |-> {}, mc |-> Empty, o |-> NoObs]

\* observations and pending events
Res(s, v)    == [s EXCEPT !.o.r = Append(@, v)]
Skipped(s)   == [s EXCEPT !.o.skip = 1]
Ev(s, e)     == [s EXCEPT !.o.ev = Append(@, e)]
Pend(s, e)   == IF \E j \in 1..Len(s.pend) : s.pend[j] = e THEN s ELSE [s EXCEPT !.pend = Append(@, e)]
Unpend(s, e) == [s EXCEPT !.pend = SelectSeq(@, LAMBDA x : x # e)]
Seen(s, c, d) == [s EXCEPT !.o.prx = Put(@, c, (IF c \in DOMAIN @ THEN @[c] ELSE <<>>) \o d)]

\* does this call fail now?
Optional == {"mod", "fcntl", "bind", "sockopt", "send", "part"}
Fails(s, call) == call \in DOMAIN s.flt /\ s.flt[call] > 0 /\ (call \in Optional => call \in s.hit)
Used(s, call)  == IF Fails(s, call) THEN [s EXCEPT !.flt[call] = @ - 1] ELSE s

-----------------------------------------------------------------------------
(* Messages *)
Push(s, m) == IF Len(s.q) >= QCap \/ m.len > MaxLen THEN s
              ELSE Pend([s EXCEPT !.q = Append(@, m)], <<"msg">>)
RECURSIVE PushAll(_, _)
PushAll(s, ms) == IF ms = <<>> THEN s ELSE PushAll(Push(s, Head(ms)), Tail(ms))

Msg(m, len, v, act, n) == [m |-> m, len |-> len, v |-> v, act |-> act, n |-> n]

\* the handler gets the oldest message; a failing handler costs only its own message
RECURSIVE Deliver(_, _)
Deliver(s, n) ==
    IF n = 0 THEN s
    ELSE LET m  == Head(s.q)
             s1 == [s EXCEPT !.q = Tail(@)]
         IN  IF m.m \notin DOMAIN s.reg THEN Deliver(s1, n - 1)
             ELSE LET s2 == [s1 EXCEPT !.o.rx = Append(@, <<m.m, s.reg[m.m], m.v, m.len, 1>>)]
                      s3 == CASE m.act = 2 -> PushAll(s2, [k \in 1..m.n |-> Msg(m.m, 64, m.v + 99 + k, 0, 0)])
                              [] m.act = 3 -> [s2 EXCEPT !.reg = Without(@, m.n)]
                              [] OTHER -> s2
                  IN  Deliver(s3, n - 1)

-----------------------------------------------------------------------------
(* Timers *)
Timers(s) == Cardinality(DOMAIN s.tm) + s.ft
CanTimer(s) == Timers(s) < Pool /\ ~Fails(s, "timerfd") /\ ~Fails(s, "epoll")
TimerTried(s) == IF Timers(s) >= Pool THEN s
                 ELSE IF Fails(s, "timerfd") THEN Used(s, "timerfd") ELSE Used(s, "epoll")
NewTimer(s, t) == IF CanTimer(s) THEN [s EXCEPT !.tm = Put(@, t, [dl |-> -1, ord |-> 0, acts |-> <<>>])]
                  ELSE TimerTried(s)
StartTimer(s, t, us) ==
    LET s1 == [s EXCEPT !.ord = @ + 1, !.tm[t].dl = IF us <= 0 THEN -1 ELSE s.now + us, !.tm[t].ord = s.ord + 1]
    IN  IF us <= 0 THEN Pend(s1, <<"tm", t>>) ELSE Unpend(s1, <<"tm", t>>)
StopTimer(s, t) == Unpend([s EXCEPT !.tm[t].dl = -1], <<"tm", t>>)
DelTimer(s, t)  == Unpend([s EXCEPT !.tm = Without(@, t)], <<"tm", t>>)

RECURSIVE Acts(_, _)
Acts(s, as) ==
    IF as = <<>> THEN s
    ELSE LET a == Head(as)
             has == "t" \in DOMAIN a /\ a.t \in DOMAIN s.tm
         IN  IF a.k = "throw" THEN s
             ELSE Acts(CASE a.k = "snd" -> Push(s, Msg(a.m, 64, a.v, 0, 0))
                         [] a.k = "tc"  -> IF has THEN s ELSE NewTimer(s, a.t)
                         [] a.k = "ts" /\ has -> StartTimer(s, a.t, a.us)
                         [] a.k = "tx" /\ has -> StopTimer(s, a.t)
                         [] a.k = "td" /\ has -> DelTimer(s, a.t)
                         [] OTHER -> s, Tail(as))

Fire(s, t) == Acts([s EXCEPT !.o.fired = Append(@, <<t, s.now>>)], s.tm[t].acts)

Due(s, till) == {t \in DOMAIN s.tm : s.tm[t].dl >= 0 /\ s.tm[t].dl <= till}
First(s, S)  == CHOOSE t \in S : \A u \in S : u = t \/ s.tm[t].dl < s.tm[u].dl
                                            \/ (s.tm[t].dl = s.tm[u].dl /\ s.tm[t].ord < s.tm[u].ord)
Expire(s, t) == Pend([s EXCEPT !.tm[t].dl = -1], <<"tm", t>>)

-----------------------------------------------------------------------------
(* Links *)
Links(s) == Cardinality(DOMAIN s.lk) + s.fl
NewLink(i) == [up |-> FALSE, c |-> -1,
               rd  |-> IF "rd" \in DOMAIN i THEN i.rd ELSE 1,
               end |-> IF "end" \in DOMAIN i THEN i.end ELSE "",
               dat |-> IF "dat" \in DOMAIN i THEN i.dat ELSE "",
               buf |-> <<>>, eof |-> FALSE, ev |-> {}]
Down(s, l) ==     \* the connection is closed from our side
    LET c  == s.lk[l].c
        s1 == Unpend([s EXCEPT !.lk[l].up = FALSE, !.lk[l].c = -1, !.lk[l].buf = <<>>, !.lk[l].eof = FALSE, !.lk[l].ev = {}],
                     <<"ln", l>>)
    IN  IF s.lk[l].up /\ c \in DOMAIN s.pe
        THEN [s1 EXCEPT !.pe[c] = -1, !.o.peof = @ \cup {c}] ELSE s1
DelLink(s, l) == LET s1 == Down(s, l) IN [s1 EXCEPT !.lk = Without(@, l)]
Raise(s, l, e) == Pend([s EXCEPT !.lk[l].ev = @ \cup {e}], <<"ln", l>>)
Up(s, l, c) == [s EXCEPT !.lk[l].up = TRUE, !.lk[l].c = c, !.pe = Put(@, c, l)]

\* what a read of n bytes gives: <<status, bytes>>
Read(x, n) == IF ~x.up THEN <<"err", <<>>>>
              ELSE IF n = 0 THEN <<"ok", <<>>>>
              ELSE IF x.buf # <<>> THEN <<"ok", SubSeq(x.buf, 1, Min(n, Len(x.buf)))>>
              ELSE IF x.eof THEN <<"closed", <<>>>>
              ELSE <<"na", <<>>>>
Taken(s, l, r) == [s EXCEPT !.lk[l].buf = SubSeq(@, Len(r[2]) + 1, Len(@))]

LinkEvent(s0, l) ==
    LET x == s0.lk[l]
        s == [s0 EXCEPT !.lk[l].ev = {}]
    IN  IF "rst" \in x.ev
        THEN LET s1 == Ev([s EXCEPT !.lk[l].up = FALSE, !.lk[l].c = -1, !.lk[l].buf = <<>>, !.lk[l].eof = FALSE], <<l, "error">>)
             IN  IF x.end = "del" THEN DelLink(s1, l) ELSE s1
        ELSE IF "conn" \in x.ev
        THEN IF Fails(s, "mod")
             THEN LET s1 == Ev(Down(Used(s, "mod"), l), <<l, "error">>) IN IF x.end = "del" THEN DelLink(s1, l) ELSE s1
             ELSE LET s1 == Ev(s, <<l, "conn">>) IN IF "data" \in x.ev THEN Raise(s1, l, "data") ELSE s1
        ELSE IF x.rd = 0 THEN Ev(s, <<l, "data">>)
        ELSE LET r  == Read(x, 4096)
                 s1 == Taken(Ev(s, <<l, r[1], r[2]>>), l, r)
                 s2 == IF r[1] = "ok" /\ x.dat = "echo" THEN Seen(s1, x.c, r[2]) ELSE s1
             IN  IF r[1] \in {"closed", "err"} /\ x.end = "del" THEN DelLink(s2, l) ELSE s2

-----------------------------------------------------------------------------
(* Acceptors *)
Accept(s, a) ==
    LET i == s.want
        l == i.l
        no == [s EXCEPT !.o.acc = Append(@, <<a, l, 1>>)]
        lost == [no EXCEPT !.pe[i.c] = -1, !.o.peof = @ \cup {i.c}]
    IN  IF Fails(s, "accept") THEN Pend(Used(no, "accept"), <<"ac", a>>)
        ELSE IF Fails(s, "fcntl") THEN Used(lost, "fcntl")
        ELSE IF Fails(s, "epoll") THEN Used(lost, "epoll")
        ELSE LET s1 == Up([s EXCEPT !.lk = Put(@, l, NewLink(i)), !.o.acc = Append(@, <<a, l, 0>>)], l, i.c)
                 d  == IF "d" \in DOMAIN i THEN i.d ELSE <<>>
             IN  IF d = <<>> THEN s1 ELSE Raise([s1 EXCEPT !.lk[l].buf = d], l, "data")

-----------------------------------------------------------------------------
(* The loop: what is pending is dispatched in order, until nothing is left *)
RECURSIVE Drain(_)
Drain(s) ==
    IF s.pend = <<>> THEN s
    ELSE LET e  == Head(s.pend)
             s1 == [s EXCEPT !.pend = Tail(@)]
         IN  Drain(CASE e[1] = "msg" -> Deliver(s1, Len(s1.q))
                     [] e[1] = "tm"  -> Fire(s1, e[2])
                     [] e[1] = "ln"  -> LinkEvent(s1, e[2])
                     [] e[1] = "ac"  -> Accept(s1, e[2]))

RECURSIVE ExpireAll(_, _)
ExpireAll(s, till) == LET S == Due(s, till) IN IF S = {} THEN s ELSE ExpireAll(Expire(s, First(s, S)), till)
RECURSIVE Advance(_, _)
Advance(s, till) ==
    LET S == Due(s, till) IN
    IF S = {} THEN [s EXCEPT !.now = till]
    ELSE LET t == First(s, S) IN Advance(Drain(Expire([s EXCEPT !.now = s.tm[t].dl], t)), till)
Late(s, till) == Drain(ExpireAll([s EXCEPT !.now = till], till))

RECURSIVE FillTimers(_, _)
FillTimers(s, n) == IF n = 0 THEN s
    ELSE FillTimers(IF CanTimer(s) THEN [s EXCEPT !.ft = @ + 1, !.o.cnt = @ + 1] ELSE TimerTried(s), n - 1)

-----------------------------------------------------------------------------
(* Operations; the loop does not run meanwhile *)
OnTimer(s, i, F(_)) == IF i.t \in DOMAIN s.tm THEN F(s) ELSE Skipped(s)
OnLink(s, i, F(_))  == IF i.l \in DOMAIN s.lk THEN F(s) ELSE Skipped(s)
OnAcc(s, i, F(_))   == IF i.a \in DOMAIN s.ac THEN F(s) ELSE Skipped(s)
OnPeer(s, i, F(_))  == IF i.c \in DOMAIN s.pe THEN F(s) ELSE Skipped(s)
Fill(s, f, have, n) == LET k == Min(n, Pool - have) IN [f EXCEPT !.o.cnt = k]

ConnectLink(s, i) ==
    LET l == i.l IN
    IF s.lk[l].up THEN Res(s, 1)
    ELSE IF Fails(s, "socket") THEN Res(Used(s, "socket"), 1)
    ELSE IF Fails(s, "fcntl") THEN Res(Used(s, "fcntl"), 1)
    ELSE IF Fails(s, "connect") THEN Res(Used(s, "connect"), 1)
    ELSE IF Fails(s, "epoll") THEN Res(Used(s, "epoll"), 1)
    ELSE IF i.p \notin s.lis \/ i.c \in DOMAIN s.pe THEN Raise(Res(s, 0), l, "rst")
    ELSE LET s1 == Raise(Up(Res(s, 0), l, i.c), l, "conn")
             d  == IF "d" \in DOMAIN i THEN i.d ELSE <<>>
         IN  IF d = <<>> THEN s1 ELSE Raise([s1 EXCEPT !.lk[l].buf = d], l, "data")

\* what can not be passed on whole is told to have failed
SendOn(s, i) ==
    LET c == s.lk[i.l].c IN
    IF ~s.lk[i.l].up THEN Res(s, 1)
    ELSE IF Fails(s, "send") THEN Res(Used(s, "send"), 1)
    ELSE IF Fails(s, "part") /\ Len(i.d) > 1 THEN Res(Seen(Used(s, "part"), c, SubSeq(i.d, 1, Len(i.d) \div 2)), 1)
    ELSE Res(Seen(s, c, i.d), 0)

Listen(s, i) ==
    IF s.ac[i.a] THEN Res(s, 1)
    ELSE IF Fails(s, "socket") THEN Res(Used(s, "socket"), 1)
    ELSE IF Fails(s, "sockopt") THEN Res(Used(s, "sockopt"), 1)
    ELSE IF Fails(s, "bind") THEN Res(Used(s, "bind"), 1)
    ELSE IF "same" \in DOMAIN i /\ i.same \in DOMAIN s.ac /\ s.ac[i.same] THEN Res(s, 1)
    ELSE IF Fails(s, "listen") THEN Res(Used(s, "listen"), 1)
    ELSE IF Fails(s, "epoll") THEN Res(Used(s, "epoll"), 1)
    ELSE Res([s EXCEPT !.ac[i.a] = TRUE], 0)

RECURSIVE Exec(_, _)
Exec(s, i) ==
    CASE i.op = "seq" -> LET RECURSIVE All(_, _)
                             All(x, is) == IF is = <<>> THEN x ELSE All(Exec(x, Head(is)), Tail(is))
                         IN  All(s, i.ops)
      [] i.op \in {"clk", "burst", "thr", "mstart"} -> s
      [] i.op = "flt" -> [s EXCEPT !.flt = Put(@, i.call, i.n)]
      [] i.op = "reg" -> [s EXCEPT !.reg = Put(@, i.m, i.tag)]
      [] i.op = "snd" -> PushAll(s, i.q)
      [] i.op = "tc"  -> IF i.t \in DOMAIN s.tm THEN Skipped(s)
                         ELSE Res(NewTimer(s, i.t), IF CanTimer(s) THEN 0 ELSE 1)
      [] i.op = "ts"  -> OnTimer(s, i, LAMBDA x : Res(StartTimer(x, i.t, i.us), 0))
      [] i.op = "tx"  -> OnTimer(s, i, LAMBDA x : Res(StopTimer(x, i.t), 0))
      [] i.op = "td"  -> OnTimer(s, i, LAMBDA x : DelTimer(x, i.t))
      [] i.op = "ta"  -> OnTimer(s, i, LAMBDA x : [x EXCEPT !.tm[i.t].acts = i.acts])
      [] i.op = "tfill"  -> FillTimers(s, i.n)
      [] i.op = "tempty" -> [s EXCEPT !.ft = 0]
      [] i.op = "lnew" -> IF i.l \in DOMAIN s.lk THEN Skipped(s)
                          ELSE IF Links(s) >= Pool THEN Res(s, 1)
                          ELSE Res([s EXCEPT !.lk = Put(@, i.l, NewLink(i))], 0)
      [] i.op = "lconn"  -> OnLink(s, i, LAMBDA x : ConnectLink(x, i))
      [] i.op = "lsend"  -> OnLink(s, i, LAMBDA x : SendOn(x, i))
      [] i.op = "lrecv"  -> OnLink(s, i, LAMBDA x : LET r == Read(x.lk[i.l], i.n)
                                                    IN  Taken(Ev(x, <<i.l, r[1], r[2]>>), i.l, r))
      [] i.op = "lclose" -> OnLink(s, i, LAMBDA x : Down(x, i.l))
      [] i.op = "ldel"   -> OnLink(s, i, LAMBDA x : DelLink(x, i.l))
      [] i.op = "lfill"  -> LET k == Min(i.n, Pool - Links(s)) IN [s EXCEPT !.fl = @ + k, !.o.cnt = k]
      [] i.op = "lempty" -> [s EXCEPT !.fl = 0]
      [] i.op = "anew" -> IF i.a \in DOMAIN s.ac THEN Skipped(s)
                          ELSE IF Cardinality(DOMAIN s.ac) + s.fa >= Pool THEN Res(s, 1)
                          ELSE Res([s EXCEPT !.ac = Put(@, i.a, FALSE)], 0)
      [] i.op = "alisten" -> OnAcc(s, i, LAMBDA x : Listen(x, i))
      [] i.op = "aclose"  -> OnAcc(s, i, LAMBDA x : IF x.ac[i.a] THEN Res([x EXCEPT !.ac[i.a] = FALSE], 0) ELSE Res(x, 1))
      [] i.op = "adel"    -> OnAcc(s, i, LAMBDA x : Unpend([x EXCEPT !.ac = Without(@, i.a)], <<"ac", i.a>>))
      [] i.op = "afill"  -> LET k == Min(i.n, Pool - Cardinality(DOMAIN s.ac) - s.fa) IN [s EXCEPT !.fa = @ + k, !.o.cnt = k]
      [] i.op = "aempty" -> [s EXCEPT !.fa = 0]
      [] i.op = "plis"   -> IF i.p \in s.lis THEN Skipped(s) ELSE [s EXCEPT !.lis = @ \cup {i.p}]
      [] i.op = "pconn"  -> OnAcc(s, i, LAMBDA x :
                              IF i.c \in DOMAIN x.pe \/ i.l \in DOMAIN x.lk THEN Skipped(x)
                              ELSE IF ~x.ac[i.a] THEN Res(x, 1)
                              ELSE Pend(Res([x EXCEPT !.want = i, !.pe = Put(@, i.c, -1)], 0), <<"ac", i.a>>))
      [] i.op = "pw"     -> OnPeer(s, i, LAMBDA x : IF x.pe[i.c] < 0 THEN x
                              ELSE Raise([x EXCEPT !.lk[x.pe[i.c]].buf = @ \o i.d], x.pe[i.c], "data"))
      [] i.op = "pclose" -> OnPeer(s, i, LAMBDA x :
                              LET l  == x.pe[i.c]
                                  x1 == [x EXCEPT !.pe = Without(@, i.c)]
                              IN  IF l < 0 THEN x1 ELSE Raise([x1 EXCEPT !.lk[l].eof = TRUE], l, "data"))
      [] i.op = "prst"   -> OnPeer(s, i, LAMBDA x :
                              LET l  == x.pe[i.c]
                                  x1 == [x EXCEPT !.pe = Without(@, i.c)]
                              IN  IF l < 0 THEN x1 ELSE Raise(x1, l, "rst"))
      [] i.op = "madd"  -> IF i.c \in DOMAIN s.mc THEN s ELSE [s EXCEPT !.mc = Put(@, i.c, i.r)]
      [] i.op = "msend" -> IF i.c \in DOMAIN s.mc THEN [s EXCEPT !.o.man = Append(@, <<s.mc[i.c], i.c, i.v>>)] ELSE s

Step(s0, i) ==
    LET s == [s0 EXCEPT !.o = NoObs, !.hit = IF "hit" \in DOMAIN i THEN i.hit ELSE Optional] IN
    IF i.op = "adv"
    THEN IF "late" \in DOMAIN i /\ i.late = 1 THEN Late(s, s.now + i.us) ELSE Advance(s, s.now + i.us)
    ELSE Drain(Exec(s, i))

\* descriptors the reactor needs to hold
Held(s) == Timers(s) + Cardinality({l \in DOMAIN s.lk : s.lk[l].up}) + Cardinality({a \in DOMAIN s.ac : s.ac[a]})
=============================================================================
