----------------------------- MODULE ReactorMsg -----------------------------
(* How messages cross threads: a sender stores its message under a lock, then*)
(* adds one to a counter; the loop takes the counter and as many messages.   *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Senders, PerSender, Cap

VARIABLES q, token, sp, left, got, drop, pc, pushed
vars == <<q, token, sp, left, got, drop, pc, pushed>>

Init == /\ q = <<>> /\ token = 0 /\ left = 0 /\ got = <<>> /\ drop = {} /\ pushed = <<>>
        /\ sp = [s \in Senders |-> 0]             \* messages stored or refused so far
        /\ pc = [s \in Senders |-> "push"]

Push(s) ==
    /\ pc[s] = "push" /\ sp[s] < PerSender
    /\ sp' = [sp EXCEPT ![s] = @ + 1]
    /\ LET m == <<s, sp[s] + 1>> IN
       IF Len(q) >= Cap
       THEN drop' = drop \cup {m} /\ UNCHANGED <<q, pc, pushed>>
       ELSE q' = Append(q, m) /\ pushed' = Append(pushed, m) /\ pc' = [pc EXCEPT ![s] = "tell"] /\ drop' = drop
    /\ UNCHANGED <<token, left, got>>
Tell(s) ==
    /\ pc[s] = "tell"
    /\ token' = token + 1 /\ pc' = [pc EXCEPT ![s] = "push"]
    /\ UNCHANGED <<q, sp, left, got, drop, pushed>>
Take ==
    /\ left = 0 /\ token > 0
    /\ left' = token /\ token' = 0
    /\ UNCHANGED <<q, sp, got, drop, pc, pushed>>
Pop ==
    /\ left > 0 /\ q # <<>>
    /\ got' = Append(got, Head(q)) /\ q' = Tail(q) /\ left' = left - 1
    /\ UNCHANGED <<token, sp, drop, pc, pushed>>

Next == (\E s \in Senders : Push(s) \/ Tell(s)) \/ Take \/ Pop
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Next)

\* the loop never comes for a message that is not there
Enough == left + token <= Len(q)
\* what arrives is what was stored, in that order; each sender's messages in its order
Fifo == got = SubSeq(pushed, 1, Len(got))
Once == \A j, k \in 1..Len(got) : j # k => got[j] # got[k]
PerSenderOrder == \A j, k \in 1..Len(got) : j < k /\ got[j][1] = got[k][1] => got[j][2] < got[k][2]
OnlyWhenFull == \A m \in drop : \A j \in 1..Len(got) : got[j] # m
AllArrive == <>[](Len(got) = Len(pushed) /\ Len(got) + Cardinality(drop) = Cardinality(Senders) * PerSender)
=============================================================================
