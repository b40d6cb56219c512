------------------------------ MODULE MCModbus ------------------------------
(* Design check of Modbus.tla with small constants, and source of replay     *)
(* scripts: Emit prints, for every transition of the state graph, the inputs *)
(* that lead to and through it.                                              *)
EXTENDS Modbus, Json

CONSTANTS Mode,       \* "client" | "server" | "admin"
          NReq,       \* requests issued or forwarded, at most
          NConn,      \* connections made, at most
          Gen         \* keep the inputs in hist

VARIABLES st,     \* state of the component
          iss,    \* transaction ids issued by the user, in order
          ans,    \* answers given, in order: <<tid, status, data>>
          txd,    \* transaction ids sent on the link, in order
          got,    \* bytes received since the last request was sent
          fwd,    \* connection -> requests forwarded
          rep,    \* connection -> replies sent
          hist
vars == <<st, iss, ans, txd, got, fwd, rep, hist>>
View == <<st, iss, ans, txd, got, fwd, rep>>

-----------------------------------------------------------------------------
Req(tid, f, d, ni) == [c |-> 0, th |-> 0, tl |-> tid, f |-> f, a |-> 1, si |-> 2, ni |-> ni, d |-> d]
Regs(tid, n)  == Hdr(tid, 3 + 2 * n) \o <<1, 3, 2 * n>> \o [j \in 1..2 * n |-> j]
Exc(tid)      == Hdr(tid, 3) \o <<1, 143, 2>>
Cli           == st.cli[0]

Times(S) == S \cup {t - 1 : t \in {x \in S : x > 1}}
Timers   == {st.cli[c].t : c \in DOMAIN st.cli} \cup {st.con[k].t : k \in DOMAIN st.con}
MinT     == CHOOSE t \in Timers \ {0} : \A u \in Timers \ {0} : t <= u
Ticks    == IF Timers \subseteq {0} THEN {}
            ELSE {[op |-> "tick", n |-> t] :
                    t \in IF Cardinality(DOMAIN st.con) > 1 THEN {MinT} ELSE Times(Timers \ {0})}

Chunks ==    \* what the device may send
    IF Cli.st = "receive"
    THEN LET t == Head(Cli.q).tl IN
         IF got = <<>>
         THEN {Regs(t, 1), Exc(t), Regs(t + 1, 1), SubSeq(Regs(t, 1), 1, 5), SubSeq(Regs(t, 1), 1, 9),
               Regs(t, 1) \o <<7>>, <<0, t, 0, 0, 1, 0>>, Hdr(t, 6) \o <<1, 6, 0, 2, 0, 0>>}
         ELSE {Drop(Regs(t, 1), Len(got)), <<9>>}
    ELSE {Regs(1, 1)}

ClientInputs ==
    Ticks
    \cup (IF Len(iss) < NReq
          THEN {[op |-> "req", items |-> <<Req(Len(iss) + 1, 3, <<>>, 1)>>],
                [op |-> "req", items |-> <<Req(Len(iss) + 1, 6, <<1>>, 0)>>]} ELSE {})
    \cup {[op |-> o, p |-> 1] : o \in {"lc", "le"}}
    \cup (IF Cli.lk = 2 THEN {[op |-> "ld", p |-> 1, d |-> d] : d \in Chunks}
                             \cup (IF Cli.sf THEN {} ELSE {[op |-> "sf", p |-> 1]}) ELSE {})
    \cup (IF st.cf = {} /\ Cli.st = "backoff" THEN {[op |-> "cf", p |-> 1]} ELSE {})

RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOf(f, S \ {x})
Used == SumOf(fwd, DOMAIN fwd)
A16(t) == Hdr(t, 11) \o <<1, 16, 0, 2, 0, 2, 4, 5, 6, 7, 8>>
A3(t)  == Hdr(t, 6) \o <<1, 3, 0, 2, 0, 1>>
ServerInputs ==
    Ticks
    \cup (IF st.nk < NConn THEN {[op |-> o, a |-> 9] : o \in {"acc", "accf"}} ELSE {})
    \cup UNION {{[op |-> "sle", k |-> k]}
                \cup (IF st.con[k].st = "connected"
                      THEN IF Used >= NReq THEN {} ELSE IF st.con[k].rx = <<>>
                           THEN {[op |-> "sd", k |-> k, d |-> d] :
                                    d \in {A3(1), A3(2), A16(1), SubSeq(A3(2), 1, 7), <<0, 1, 0, 0, 1, 4>>,
                                           Hdr(1, 6) \o <<255, 3, 0, 2, 0, 1>>}}
                           ELSE {[op |-> "sd", k |-> k, d |-> Drop(A3(2), 7)]}
                      ELSE {}) : k \in DOMAIN st.con}
    \cup UNION {{[op |-> "arsp", k |-> k, tid |-> t, e |-> e, st |-> s, d |-> <<1, 2>>] :
                   t \in {1, 2}, e \in {0, 2}, s \in {0, 1}} : k \in DOMAIN st.last}

AdminInputs ==
    {[op |-> "init", s |-> 1, c |-> 1], [op |-> "rel"]}
    \cup {[op |-> "cfg", items |-> x] :
            x \in {<<[m |-> "c", id |-> 0, a |-> 1]>>, <<[m |-> "s", id |-> 0, a |-> 9]>>,
                   <<[m |-> "c", id |-> 1, a |-> 2], [m |-> "c", id |-> 0, a |-> 3], [m |-> "s", id |-> 0, a |-> 9]>>}}
    \cup (IF Len(iss) < NReq THEN {[op |-> "req", items |-> <<Req(Len(iss) + 1, 3, <<>>, 1)>>]} ELSE {})
    \cup (IF st.nk < NConn THEN {[op |-> "acc", a |-> 9]} ELSE {})
    \cup {[op |-> "lc", p |-> p] : p \in {1, 3}}
    \cup {[op |-> "sd", k |-> k, d |-> A3(1)] : k \in DOMAIN st.con}

Inputs == CASE Mode = "client" -> ClientInputs
            [] Mode = "server" -> ServerInputs
            [] Mode = "admin"  -> AdminInputs

-----------------------------------------------------------------------------
FreeSid(k) == CHOOSE n \in 0..MaxSessions : \A x \in DOMAIN st.con : st.con[x].sid # n /\ TRUE
SidOf(i) == IF i.op = "sd" /\ i.k \in DOMAIN st.con
            THEN IF st.con[i.k].sid >= 0 THEN st.con[i.k].sid ELSE FreeSid(i.k) ELSE -1

Bump(f, S) == [x \in DOMAIN f \cup S |-> (IF x \in DOMAIN f THEN f[x] ELSE 0) + (IF x \in S THEN 1 ELSE 0)]

Apply(i) ==
    LET r == Step(st, i, SidOf(i)) IN
    /\ ~r.st.wild
    /\ st' = r.st
    /\ iss' = IF i.op = "req" THEN iss \o [j \in 1..Len(i.items) |-> i.items[j].tl] ELSE iss
    /\ ans' = ans \o [j \in 1..Len(r.o.rsp) |-> <<r.o.rsp[j].tl, r.o.rsp[j].s, r.o.rsp[j].d>>]
    /\ LET sent == IF 1 \in DOMAIN r.o.tx THEN <<U16(r.o.tx[1], 1)>> ELSE <<>> IN
       /\ txd' = txd \o sent
       /\ got' = IF sent # <<>> THEN <<>>
                 ELSE IF i.op = "ld" /\ 0 \in DOMAIN st.cli /\ Cli.st = "receive" THEN got \o i.d
                 ELSE IF 0 \in DOMAIN r.st.cli /\ r.st.cli[0].st # "receive" THEN <<>> ELSE got
    /\ fwd' = IF r.o.fwd # <<>> THEN Bump(fwd, {i.k}) ELSE fwd
    /\ rep' = Bump(rep, DOMAIN r.o.ctx)
    /\ hist' = IF Gen THEN Append(hist, i) ELSE <<>>

Start(i1, i2) == Step(Step(Init0, i1, -1).st, i2, -1).st
I1 == [op |-> "init", s |-> IF Mode = "server" THEN 1 ELSE 0, c |-> IF Mode = "client" THEN 1 ELSE 0]
I2 == [op |-> "cfg", items |-> IF Mode = "client" THEN <<[m |-> "c", id |-> 0, a |-> 1]>>
                               ELSE <<[m |-> "s", id |-> 0, a |-> 9]>>]

Init == /\ st = IF Mode = "admin" THEN Init0 ELSE Start(I1, I2)
        /\ hist = IF Gen /\ Mode # "admin" THEN <<I1, I2>> ELSE <<>>
        /\ iss = <<>> /\ ans = <<>> /\ txd = <<>> /\ got = <<>> /\ fwd = Empty /\ rep = Empty

Next == \E i \in Inputs : Apply(i)
Pass == Timers \ {0} # {} /\ Apply([op |-> "tick", n |-> MinT])

Spec     == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Pass)

Emit == PrintT("S " \o ToJson(hist'))

-----------------------------------------------------------------------------
(* What the component promises, on the design.                               *)
Tids(s) == {s[j][1] : j \in 1..Len(s)}
Queued  == IF 0 \in DOMAIN st.cli THEN {Cli.q[j].tl : j \in 1..Len(Cli.q)} ELSE {}

\* every request is answered or still queued, never both, never twice
ExactlyOnce ==
    Mode = "client" =>
      /\ \A j, k \in 1..Len(ans) : j # k => ans[j][1] # ans[k][1]
      /\ Tids(ans) \cap Queued = {}
      /\ {iss[j] : j \in 1..Len(iss)} = Tids(ans) \cup Queued

\* requests go out in the order issued, each once
SendOrder == \A j \in 1..Len(txd) - 1 : txd[j] < txd[j + 1]
QueueOrder == 0 \in DOMAIN st.cli =>
    /\ \A j \in 1..Len(Cli.q) - 1 : Cli.q[j].tl < Cli.q[j + 1].tl
    /\ Len(Cli.q) <= QCap

\* at most one request is outstanding: everything sent but the last is answered
OneOutstanding == Mode = "client" => \A j \in 1..Len(txd) - 1 : txd[j] \in Tids(ans)

\* success is reported only for the request just sent, with what the device sent
Sound == [][\A j \in Len(ans) + 1..Len(ans') : ans'[j][2] = 0 =>
               /\ txd # <<>> /\ ans'[j][1] = txd[Len(txd)]
               /\ LET h == IF Gen THEN hist'[Len(hist')] ELSE [op |-> "ld", d |-> <<>>]
                  IN  h.op = "ld"
               /\ Gen => LET b == got \o hist'[Len(hist')].d IN
                    /\ Framing(b) = "whole"
                    /\ U16(b, 1) = ans'[j][1]
                    /\ b[7] = 1
                    /\ b[8] # 143 => ans'[j][3] = Swap(Drop(b, 9))]_vars

\* the link is open exactly while the client needs it
LinkFits == \A c \in DOMAIN st.cli :
    LET x == st.cli[c] IN
    /\ x.st \in {"connected", "send", "receive"} <=> x.lk = 2
    /\ x.st = "backoff" => x.lk = 0
    /\ x.st # "connected" => x.t > 0
    /\ x.st \in {"connect", "backoff"} => x.q = <<>>
    /\ x.st = "receive" => x.q # <<>>

\* a client that is not connected tries again
Reconnects == [](0 \in DOMAIN st.cli /\ Cli.st = "backoff" => <>(Cli.st = "connect"))
\* every request is answered in the end
AllAnswered == \A n \in 1..NReq : [](n \in Queued => <>(n \in Tids(ans)))

\* a reply is sent only for a forwarded request, once
ReplyOnce == \A k \in DOMAIN rep : k \in DOMAIN fwd /\ rep[k] <= fwd[k]
Sessions  == /\ Cardinality(DOMAIN st.con) <= MaxSessions
             /\ \A k \in DOMAIN st.con : st.con[k].t > 0
             /\ \A j, k \in DOMAIN st.con : j # k /\ st.con[j].sid >= 0 => st.con[j].sid # st.con[k].sid
\* time alone: a silent connection is closed, every request answered, a lost link tried again
IdleCloses   == \A k \in DOMAIN st.con : ~SAdvance(st.con[k], InactiveTime + AnswerTime).open
AnsweredSoon == \A c \in DOMAIN st.cli :
    LET x == st.cli[c] IN Advance(x, (Len(x.q) + 1) * (ReceiveTime + 2 * SendTime)).cl.q = <<>>
TriesAgain   == \A c \in DOMAIN st.cli :
    st.cli[c].st \in {"connect", "backoff"} => Advance(st.cli[c], ConnectTime + BackoffTime).att >= 1

\* nothing survives a release
ReleaseClean == ~st.up => st.cli = Empty /\ st.srv = Empty /\ st.con = Empty
=============================================================================
