----------------------------- MODULE MCReactor ------------------------------
(* Design check of Reactor.tla with few objects, and source of scripts.      *)
EXTENDS Reactor, Json

CONSTANTS Mode,     \* "msg" | "timer" | "link" | "fault"
          NOps      \* length of the histories

VARIABLES st, n, sent, hist
vars == <<st, n, sent, hist>>
View == <<st, n, sent>>

M(m, v, act, k) == Msg(m, 64, v, act, k)
V0 == 10 * (n + 1)
Batch(k) == [j \in 1..k |-> M(1, V0 + j, 0, 0)]

MsgInputs ==
    {[op |-> "reg", m |-> m, tag |-> t, vec |-> t - 1] : m \in {1, 2}, t \in {1, 2}}
    \cup {[op |-> "snd", q |-> x] :
            x \in {<<M(1, V0, 0, 0)>>, <<M(2, V0, 1, 0), M(1, V0 + 1, 0, 0)>>, <<M(3, V0, 0, 0), M(2, V0 + 1, 0, 0)>>,
                   <<M(1, V0, 2, 2), M(2, V0 + 1, 0, 0)>>, <<Msg(1, MaxLen, V0, 0, 0), Msg(1, MaxLen + 1, V0 + 1, 0, 0), M(1, V0 + 2, 0, 0)>>,
                   <<M(1, V0, 3, 2), M(2, V0 + 1, 0, 0)>>,
                   Batch(QCap - 1) \o <<M(2, V0, 0, 0), M(1, V0, 0, 0)>>, <<M(1, V0, 2, 3)>> \o Batch(QCap)}}
    \cup {[op |-> "madd", c |-> c, r |-> r] : c \in {1, 2}, r \in {1, 2}}
    \cup {[op |-> "msend", c |-> c, m |-> 1, v |-> V0] : c \in {1, 2}}

Ts == {1, 2, 3}
TimerInputs ==
    {[op |-> "tc", t |-> t] : t \in Ts} \cup {[op |-> "tx", t |-> t] : t \in Ts \cap DOMAIN st.tm}
    \cup {[op |-> "td", t |-> t] : t \in {1} \cap DOMAIN st.tm}
    \cup {[op |-> "ts", t |-> t, us |-> u] : t \in Ts \cap DOMAIN st.tm, u \in {0, 5, 10}}
    \cup {[op |-> "ta", t |-> 1, acts |-> a] :
            a \in {<<[k |-> "tx", t |-> 2], [k |-> "ts", t |-> 1, us |-> 5]>>, <<[k |-> "td", t |-> 2]>>, <<[k |-> "td", t |-> 1]>>,
                   <<[k |-> "ts", t |-> 2, us |-> 5], [k |-> "throw"], [k |-> "tx", t |-> 2]>>}}
    \cup (IF st.tm = Empty THEN {} ELSE {[op |-> "adv", us |-> u, late |-> b] : u \in {4, 5, 10}, b \in {0, 1}})

Cs == {100 + n}
LinkInputs ==
    {[op |-> "lnew", l |-> l, rd |-> 2 - l, end |-> "del", dat |-> "echo"] : l \in {1, 2}}
    \cup (IF st.lis = {} THEN {[op |-> "plis", p |-> 1]} ELSE {})
    \cup {[op |-> "lconn", l |-> l, p |-> p, c |-> c, d |-> d] : l \in DOMAIN st.lk \cap {1, 2}, p \in {1, 9}, c \in Cs, d \in {<<>>, <<7>>}}
    \cup {[op |-> "lsend", l |-> l, d |-> <<1, 2, n>>] : l \in {k \in DOMAIN st.lk : ~st.lk[k].eof}}
    \cup {[op |-> "lrecv", l |-> l, n |-> 2] : l \in DOMAIN st.lk}
    \cup {[op |-> o, l |-> l] : l \in DOMAIN st.lk, o \in {"lclose", "ldel"}}
    \cup {[op |-> "pw", c |-> c, d |-> <<n, 5, 6>>] : c \in DOMAIN st.pe}
    \cup {[op |-> o, c |-> c] : c \in DOMAIN st.pe, o \in {"pclose", "prst"}}
    \cup {[op |-> "anew", a |-> 1]}
    \cup {[op |-> o, a |-> a] : a \in DOMAIN st.ac, o \in {"alisten", "adel"}}
    \cup {[op |-> "pconn", a |-> a, c |-> c, l |-> l, d |-> d] : a \in DOMAIN st.ac, c \in Cs, l \in {3}, d \in {<<>>, <<9>>}}
    \cup (IF \E p \in DOMAIN st.pe : st.pe[p] >= 0
          THEN {[op |-> "seq", ops |-> <<[op |-> "pw", c |-> p, d |-> <<8>>], [op |-> "ldel", l |-> st.pe[p]]>>] :
                   p \in {x \in DOMAIN st.pe : st.pe[x] >= 0}} ELSE {})

FaultInputs ==
    {[op |-> "flt", call |-> c, n |-> 1] : c \in {"epoll", "timerfd", "socket", "connect", "listen", "accept"} \cup Optional}
    \cup {[op |-> "lsend", l |-> l, d |-> <<1, 2, n>>] : l \in {k \in DOMAIN st.lk : ~st.lk[k].eof}}
    \cup {[op |-> "tc", t |-> 1], [op |-> "td", t |-> 1], [op |-> "lnew", l |-> 1], [op |-> "lconn", l |-> 1, p |-> 1, c |-> 100 + n],
          [op |-> "ldel", l |-> 1], [op |-> "anew", a |-> 1], [op |-> "alisten", a |-> 1], [op |-> "adel", a |-> 1],
          [op |-> "tfill", n |-> Pool], [op |-> "lfill", n |-> Pool + 1], [op |-> "afill", n |-> Pool],
          [op |-> "tempty"], [op |-> "lempty"], [op |-> "aempty"], [op |-> "aclose", a |-> 1]}
    \cup (IF Links(st) < Pool THEN {[op |-> "pconn", a |-> 1, c |-> 100 + n, l |-> 3]} ELSE {})

Inputs == CASE Mode = "msg" -> MsgInputs [] Mode = "timer" -> TimerInputs
            [] Mode = "link" -> LinkInputs [] Mode = "fault" -> FaultInputs

First0 == IF Mode = "fault" THEN <<[op |-> "plis", p |-> 1]>> ELSE <<[op |-> "clk", ns |-> 999998000]>>
Init == /\ st = Step(Init0, First0[1]) /\ n = 0 /\ sent = <<>> /\ hist = First0

Clean(s) == [s EXCEPT !.o = NoObs]
Next ==
    /\ n < NOps
    /\ \E i \in Inputs :
         /\ st' = Step(Clean(st), i)
         /\ sent' = IF Mode = "msg" /\ i.op = "snd" THEN i.q ELSE <<>>
         /\ hist' = Append(hist, i)
    /\ n' = n + 1

Spec == Init /\ [][Next]_vars
Emit == PrintT("S " \o ToJson(hist'))

-----------------------------------------------------------------------------
\* the loop comes to rest with nothing left to do
Rest == /\ st.q = <<>> /\ st.pend = <<>>
        /\ \A t \in DOMAIN st.tm : st.tm[t].dl = -1 \/ st.tm[t].dl > st.now
        /\ \A l \in DOMAIN st.lk : st.lk[l].ev = {}
\* messages of one operation arrive in the order sent, at most once, with the content sent
Values(s) == [j \in 1..Len(s) |-> s[j].v]
InOrder ==
    LET rx == SelectSeq(st.o.rx, LAMBDA e : \E j \in 1..Len(sent) : sent[j].v = e[3])
        pos(v) == {j \in 1..Len(sent) : sent[j].v = v}
    IN  \A a, b \in 1..Len(rx) : a < b => \E x \in pos(rx[a][3]), y \in pos(rx[b][3]) : x < y
\* an admitted message with a handler is delivered
NoLoss == \A j \in 1..Len(sent) :
            j <= QCap /\ sent[j].len <= MaxLen /\ sent[j].m \in DOMAIN st.reg
            => \E k \in 1..Len(st.o.rx) : st.o.rx[k][3] = sent[j].v
\* a timer fires when its time has come, once, and only while it is started
OnTime == [][hist' # hist => LET i == hist'[Len(hist')] IN
              /\ (i.op = "adv" => \A t \in DOMAIN st.tm :
                    LET f == SelectSeq(st'.o.fired, LAMBDA e : e[1] = t) IN
                    st.tm[t].dl = -1 /\ (\A u \in DOMAIN st.tm : st.tm[u].acts = <<>>) => f = <<>>)
              /\ (i.op \in {"tx", "td", "tc", "ta"} => st'.o.fired = <<>>)
              /\ (i.op = "adv" /\ i.late = 0 => \A k \in 1..Len(st'.o.fired) :
                    LET e == st'.o.fired[k] IN
                    \/ st.tm[e[1]].dl = e[2]
                    \/ \E u \in DOMAIN st.tm : st.tm[u].acts # <<>>)]_vars
\* both ends agree on what is connected
Ends == /\ \A c \in DOMAIN st.pe : st.pe[c] >= 0 => st.pe[c] \in DOMAIN st.lk /\ st.lk[st.pe[c]].c = c /\ st.lk[st.pe[c]].up
        /\ \A l \in DOMAIN st.lk : ~st.lk[l].up => st.lk[l].buf = <<>> /\ st.lk[l].c = -1
\* the pools are never exceeded, and nothing is held without an owner
Pools == /\ Timers(st) <= Pool /\ Links(st) <= Pool /\ Cardinality(DOMAIN st.ac) + st.fa <= Pool
         /\ Held(st) <= 3 * Pool
=============================================================================
