---------------------------- MODULE MCController ----------------------------
(* The controller composed with Modbus and OPC UA components that confirm    *)
(* what they are asked, over queues in order, under any sequence of starts   *)
(* and stops. Source of scripts.                                             *)
EXTENDS Controller, Json

CONSTANTS NOps,       \* starts and stops
          NRounds,    \* rounds of the self-test that are watched
          Bad,        \* a round may end in a wrong answer
          Gen

VARIABLES st,         \* controller
          mq, uq,     \* to Modbus; to the OPC UA components (in one reactor)
          cq,         \* to the controller
          mb,         \* Modbus: "down" | "up" | "conf"
          ua,         \* transport, channel, service: "down" | "up" | "conf"
          ops, rounds, hist
vars == <<st, mq, uq, cq, mb, ua, ops, rounds, hist>>
View == <<st, mq, uq, cq, mb, ua, ops, rounds>>

Rv == [j \in 1..Room |-> j % 256]
Plain(s) == [s EXCEPT !.wr = NoWrites]

Init == /\ st = Init0 /\ mq = <<>> /\ uq = <<>> /\ cq = <<>> /\ mb = "down"
        /\ ua = [x \in {"t", "s", "v"} |-> "down"] /\ ops = 0 /\ rounds = 0 /\ hist = <<>>

ForMb(out) == SelectSeq(out, LAMBDA e : e.m \in {"minit", "mrel", "mcfg", "madu"})
ForUa(out) == SelectSeq(out, LAMBDA e : e.m \notin {"minit", "mrel", "mcfg", "madu"})
Names(s) == [j \in 1..Len(s) |-> s[j].m]

Put(r, i) == /\ st' = r.st
             /\ mq' = mq \o Names(ForMb(r.out)) /\ uq' = uq \o Names(ForUa(r.out))
             /\ hist' = IF Gen THEN Append(hist, i) ELSE hist

Env == /\ ops < NOps
       /\ \E o \in {"start", "stop"} : Put(Step(st, [op |-> o], Rv), [op |-> o])
       /\ ops' = ops + 1
       /\ UNCHANGED <<cq, mb, ua, rounds>>

Modbus ==
    /\ mq # <<>>
    /\ mq' = Tail(mq)
    /\ LET m == Head(mq) IN
       CASE m = "minit" -> mb' = "up" /\ cq' = Append(cq, "minit")
         [] m = "mrel"  -> mb' = "down" /\ cq' = Append(cq, "mrel")
         [] m = "mcfg"  -> IF mb = "down" THEN UNCHANGED <<mb, cq>> ELSE mb' = "conf" /\ cq' = Append(cq, "mcfg")
         [] m = "madu"  -> IF mb = "down" THEN UNCHANGED <<mb, cq>> ELSE UNCHANGED mb /\ cq' = Append(cq, "round")
    /\ UNCHANGED <<st, uq, ua, ops, rounds, hist>>

Ua ==
    /\ uq # <<>>
    /\ uq' = Tail(uq)
    /\ LET m == Head(uq)
           k == SubSeq(m, 1, 1)
           w == SubSeq(m, 2, Len(m))
       IN  CASE w = "init" -> ua' = [ua EXCEPT ![k] = "up"] /\ cq' = Append(cq, m)
             [] w = "rel"  -> ua' = [ua EXCEPT ![k] = "down"] /\ cq' = Append(cq, m)
             [] w = "cfg"  -> ua' = [ua EXCEPT ![k] = IF @ = "down" THEN @ ELSE "conf"] /\ UNCHANGED cq
    /\ UNCHANGED <<st, mq, mb, ops, rounds, hist>>

\* the right answers of a round, or the last one wrong
Right(tid) == LET c == Case(tid) IN
    [op |-> "crsp", cid |-> c.cid, tid |-> tid, err |-> c.err, st |-> c.ok,
     d |-> IF c.ok = 1 /\ c.err = 0 /\ c.f \in {3, 4} THEN Bytes(st, Rv, tid, 2 * c.si, 2 * c.ni)
           ELSE IF c.ok = 1 /\ c.f = 6 THEN SubSeq(Rv, 1, 2) ELSE <<>>]
\* the writes of the self-test itself
Written(s) == LET S == {t \in 0..NCases - 1 : Case(t).f \in {6, 16} /\ Case(t).ok = 1} IN
              [s EXCEPT !.wr = [t \in DOMAIN s.wr |-> IF t \in S THEN [p \in (2 * Case(t).si)..(2 * Case(t).si + Case(t).n - 1) |-> Rv[p - 2 * Case(t).si + 1]]
                                                     ELSE s.wr[t]]]
RECURSIVE Answers(_, _, _)
Answers(s, tid, good) ==
    IF tid = NCases - 1
    THEN Step(s, IF good THEN Right(tid) ELSE [Right(tid) EXCEPT !.st = 1 - @], Rv)
    ELSE Answers(Step(s, Right(tid), Rv).st, tid + 1, good)

Take ==
    /\ cq # <<>>
    /\ cq' = Tail(cq)
    /\ IF Head(cq) = "round"
       THEN \E good \in IF Bad THEN BOOLEAN ELSE {TRUE} :
              LET r == IF st.mb = "run" THEN Answers(Written(st), 0, good) ELSE R(st, <<>>) IN
              /\ Put(R(Plain(r.st), r.out), [op |-> "round", good |-> IF good THEN 1 ELSE 0])
              /\ rounds' = rounds + 1
       ELSE Put(Step(st, [op |-> Head(cq)], Rv), [op |-> Head(cq)]) /\ UNCHANGED rounds
    /\ UNCHANGED <<mb, ua, ops>>

Time == /\ st.mb = "pause" /\ rounds < NRounds
        /\ \E n \in {Pause - 1, Pause} : n <= st.t /\ Put(Step(st, [op |-> "tick", n |-> n], Rv), [op |-> "tick", n |-> n])
        /\ UNCHANGED <<cq, mb, ua, ops, rounds>>
OnTime == /\ st.mb = "pause" /\ rounds < NRounds
          /\ Put(Step(st, [op |-> "tick", n |-> st.t], Rv), [op |-> "tick", n |-> st.t])
          /\ UNCHANGED <<cq, mb, ua, ops, rounds>>

Next == Env \/ Modbus \/ Ua \/ Take \/ Time
Spec == Init /\ [][Next]_vars
FairSpec == Init /\ [][Next]_vars /\ WF_vars(Modbus) /\ WF_vars(Ua) /\ WF_vars(Take) /\ WF_vars(OnTime)
Emit == PrintT("S " \o ToJson(hist'))

-----------------------------------------------------------------------------
Quiet == mq = <<>> /\ uq = <<>> /\ cq = <<>>
\* when everything is handled, the components are as the controller wants them
Agree == Quiet =>
    /\ (st.mb = "off" => mb = "down" /\ ua = [x \in {"t", "s", "v"} |-> "down"])
    /\ (st.mb = "failed" => mb = "down")
    /\ (st.mb \in {"pause"} => mb = "conf")
    /\ (st.ua => ua = [x \in {"t", "s", "v"} |-> "conf"])
    /\ st.mb \notin {"init", "conf", "run"}
Determined == ~st.wild
Both == (st.mb = "off") = ~st.ua
\* a started controller comes to run its test again and again, unless it is stopped or the test fails
Settles == <>[](Quiet)
Watches == <>[](st.mb \in {"off", "failed"} \/ rounds >= NRounds)
=============================================================================
