------------------------------ MODULE MCSystem ------------------------------
(* The deployed application under any sequence of starts and stops, its      *)
(* threads and the network taking turns in any order; time passes when all   *)
(* are at rest. Source of scripts.                                           *)
EXTENDS System, Json

CONSTANTS NOps,       \* starts and stops
          NTime,      \* moments at which something happens by itself
          NCut,       \* times the network cuts the connection
          Gen

VARIABLES x, asked, ops, time, cuts, hist
vars == <<x, asked, ops, time, cuts, hist>>
View == <<x, asked, ops, time, cuts>>

Pattern == [j \in 1..2048 |-> (7 * j) % 256]          \* Rv

Init == x = Down /\ asked = "stop" /\ ops = 0 /\ time = 0 /\ cuts = 0 /\ hist = <<>>

Clean(y) == [y EXCEPT !.w = <<>>, !.tx = <<>>]
Log(e)  == IF Gen THEN Append(hist, e) ELSE hist
Ran(n) == IF ~Gen THEN hist
          ELSE LET k == Len(hist) IN
               IF hist[k].op \in {"start", "stop"} THEN [hist EXCEPT ![k].g = Append(@, n)] ELSE hist

Env == /\ ops < NOps /\ ~x.wild
       /\ \E o \in {"start", "stop"} :
            /\ x' = [x EXCEPT !.qc = Append(@, [op |-> o])]
            /\ asked' = o
            /\ hist' = Log([op |-> o, g |-> <<>>])
       /\ ops' = ops + 1
       /\ UNCHANGED <<time, cuts>>
Turn(S, n) == /\ \E y \in S : x' = Clean(y)
              /\ hist' = Ran(n)
              /\ UNCHANGED <<asked, ops, time, cuts>>
Ctl == ~x.wild /\ Turn(CtlStep(x), 3)
Mb  == ~x.wild /\ Turn(MbMsg(x) \cup MbLink(x), 1)
Ua  == ~x.wild /\ Turn(UaMsg(x), 2)
Nw  == ~x.wild /\ Turn(Net(x), 9)
Rests == Succs(x) = {}
Time == /\ time < NTime /\ Rests /\ Deadlines(x) # {} /\ ~x.wild
        /\ LET d == MinOf(Deadlines(x)) IN
           /\ x' = Clean(Elapse(x, d))
           /\ hist' = Log([op |-> "adv", n |-> (d + 9) \div 10])
        /\ time' = time + 1
        /\ UNCHANGED <<asked, ops, cuts>>
Cut == /\ cuts < NCut /\ Rests /\ ~x.wild /\ x.tap.st \in {"conn", "open"}
       /\ x' = [x EXCEPT !.tap = [NoTap EXCEPT !.st = "dead", !.ce = TRUE, !.se = TRUE, !.k = x.tap.k]]
       /\ hist' = Log([op |-> "cut"])
       /\ cuts' = cuts + 1
       /\ UNCHANGED <<asked, ops, time>>

Next == Env \/ Ctl \/ Mb \/ Ua \/ Nw \/ Time \/ Cut
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Ctl \/ Mb \/ Ua \/ Nw)
Emit == PrintT("S " \o ToJson(hist'))

-----------------------------------------------------------------------------
Awake == Rests /\ x.sl = 0
\* at rest the application is as was asked last
Agrees == Awake => IF asked = "stop" THEN Listens(x) = {} /\ x.m.con = B!Empty /\ x.m.cli = B!Empty /\ x.tap.st = "none" /\ x.dy = <<>> /\ x.c.mb = "off" /\ ~x.t.up /\ ~x.s.up /\ ~x.v.up
                   ELSE UaAddr \in Listens(x) /\ x.s.up /\ x.v.up /\ (x.c.mb # "failed" => MbAddr \in Listens(x))
\* the self-test of an application left alone succeeds
Passes == cuts = 0 => x.c.mb # "failed"
Determined == ~x.wild
\* the reduced successors lead to the same states at rest
RECURSIVE All(_, _), Some(_, _)
All(F, done)  == IF F = {} THEN done ELSE LET R == {y \in F : Succs(y) = {}} IN All({Clean(z) : z \in UNION {Succs(y) : y \in F}}, done \cup R)
Some(F, done) == IF F = {} THEN done ELSE LET R == {y \in F : First(y) = {}} IN Some({Clean(z) : z \in UNION {First(y) : y \in F}}, done \cup R)
Reduced == All({x}, {}) = Some({x}, {})
\* it comes to rest
Settles == []<>Rests
=============================================================================
