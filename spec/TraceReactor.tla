---------------------------- MODULE TraceReactor ----------------------------
(* Accepts the behaviours of the implementation Reactor.tla allows.          *)
EXTENDS Reactor, Json, IOUtils

CONSTANT Chans

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr, l, st
vars == <<tr, l, st>>

\* senders run concurrently: each sender's messages arrive once, in order and unchanged
FromSenders(rx, n, per) ==
    /\ Len(rx) = n * per
    /\ \A k \in 0..n - 1 :
         LET mine == SelectSeq(rx, LAMBDA e : e[1] = k) IN
         /\ Len(mine) = per
         /\ \A j \in 1..per : mine[j] = <<k, j - 1, 1>>

PerLink(ev, k) == SelectSeq(ev, LAMBDA e : e[1] = k)
LinksIn(ev)    == {ev[j][1] : j \in 1..Len(ev)}
SameEvents(a, b) == \A k \in LinksIn(a) \cup LinksIn(b) : PerLink(a, k) = PerLink(b, k)
\* an attempt that fails may be reported at once or by an event
Attempt(s, i) == i.op = "lconn" /\ i.l \in DOMAIN s.lk /\ ~s.lk[i.l].up
FailedAtOnce(e, o) == e.r = <<0>> /\ Len(e.ev) = 1 /\ e.ev[1][2] = "error" /\ o.r = <<1>> /\ o.ev = <<>>

Prx(o) == [c \in {o.prx[j].c : j \in 1..Len(o.prx)} |-> o.prx[CHOOSE j \in 1..Len(o.prx) : o.prx[j].c = c].d]

Diffs(s0, i, o, s) ==
    LET e == s.o
        D(ch, x, v) == IF x = v THEN {} ELSE {<<ch, ToString(x), ToString(v)>>}
        once == Attempt(s0, i) /\ FailedAtOnce(e, o)
        all ==
          D("skip", e.skip, o.skip)
          \cup (IF once THEN {} ELSE D("r", e.r, o.r))
          \cup D("cnt", e.cnt, o.cnt)
          \cup (IF i.op \in {"burst", "thr"}
                THEN IF FromSenders(o.rx, i.t, i.per) THEN {} ELSE {<<"rx", <<i.t, i.per>>, o.rx>>}
                ELSE D("rx", e.rx, o.rx))
          \cup D("fired", e.fired, o.fired)
          \cup (IF once \/ SameEvents(e.ev, o.ev) THEN {} ELSE {<<"ev", e.ev, o.ev>>})
          \cup D("acc", e.acc, o.acc)
          \cup D("prx", e.prx, Prx(o))
          \cup D("peof", e.peof, {o.peof[j] : j \in 1..Len(o.peof)})
          \cup D("man", e.man, o.man)
          \cup (IF o.fds <= Held(s) THEN {} ELSE {<<"fds", Held(s), o.fds>>})
    IN  {d \in all : d[1] \in Chans}

\* which failures happened: a reactor may do without some calls, and may send the rest of what was sent in part
Hit(i, o) == LET h == {o.hit[j] : j \in 1..Len(o.hit)} IN
             [hit |-> IF i.op = "lsend" /\ o.r = <<0>> THEN h \ {"part", "send"} ELSE h] @@ i

Init == tr \in 1..Len(Traces) /\ l = 1 /\ st = Init0
Steps == Traces[tr].steps

Next ==
    /\ l <= Len(Steps)
    /\ tr' = tr
    /\ LET i == Steps[l].i
           o == Steps[l].o
           s == Step(st, Hit(i, o))
           d == Diffs(st, i, o, s)
       IN  IF d # {}
           THEN /\ PrintT(<<"MISMATCH", Traces[tr].id, l, ToJson(d)>>)
                /\ l' = Len(Steps) + 1 /\ st' = Init0
           ELSE /\ l = Len(Steps) => PrintT(<<"DONE", Traces[tr].id, "ok">>)
                /\ l' = l + 1
                /\ st' = [s EXCEPT !.o = NoObs]

Spec == Init /\ [][Next]_vars
=============================================================================
