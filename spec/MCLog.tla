-------------------------------- MODULE MCLog -------------------------------
(* The log with some tasks and levels, and the days of years: the            *)
(* calendar of Log is the calendar, and what is shown is what was asked for. *)
EXTENDS Log, FiniteSets, Json, TLC

CONSTANTS Last,        \* years of the calendar to walk through, day by day
          NOps, Some,  \* messages and settings, of these tasks
          Gen          \* TRUE: print replay scripts

VARIABLES s, cal,      \* the log; the calendar, walked day by day
          asked,       \* by task: the last level asked for, or -1
          n, script
vars == <<s, cal, asked, n, script>>
View == <<s, cal, asked, n>>

RECURSIVE Before(_)
Before(y) == IF y = 1970 THEN 0 ELSE Before(y - 1) + (IF Leap(y - 1) THEN 366 ELSE 365)
Init == s = Log0 /\ cal \in {[y |-> y, m |-> 1, d |-> 1, n |-> Before(y)] : y \in 1970..Last} /\ asked = [t \in Some |-> -1] /\ n = 0 /\ script = <<>>

Days(y, m) == CASE m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
Tomorrow(c) ==
    IF c.d < Days(c.y, c.m) THEN [c EXCEPT !.d = @ + 1, !.n = @ + 1]
    ELSE IF c.m < 12 THEN [c EXCEPT !.d = 1, !.m = @ + 1, !.n = @ + 1]
    ELSE [y |-> c.y + 1, m |-> 1, d |-> 1, n |-> c.n + 1]
Day == n = 0 /\ ~(cal.m = 12 /\ cal.d = 31) /\ cal' = Tomorrow(cal) /\ UNCHANGED <<s, asked, n, script>>

Do(o) == n' = n + 1 /\ script' = Append(script, o) /\ UNCHANGED cal
Set == \E t \in Some, lv \in 0..4 : s' = SetLevel(s, t, lv) /\ asked' = [asked EXCEPT ![t] = lv] /\ Do([op |-> "lvl", t |-> t - 1, l |-> lv])
Put == \E t \in Some, lv \in 0..3 : UNCHANGED <<s, asked>> /\ Do([op |-> "log", t |-> t - 1, l |-> lv, how |-> lv % 2, n |-> n, p |-> (t % 3), d |-> <<104, 105>>])
Next == Day \/ (cal.n = 0 /\ n < NOps /\ (Set \/ Put))
Spec == Init /\ [][Next]_vars

Calendar == LET c == Civil(cal.n) IN c.y = cal.y /\ c.m = cal.m /\ c.d = cal.d
\* a level is what was asked last, and shows itself and all that is worse
Asked    == \A t \in Some : asked[t] >= 0 => \A lv \in 0..3 : Shown(s, t, lv) <=> lv >= asked[t]
Others   == \A t \in (1..Len(Tasks)) \ Some : s.lev[t] = Log0.lev[t]
Worse    == \A t \in 1..Len(Tasks), lv \in 0..2 : Shown(s, t, lv) => Shown(s, t, lv + 1)
Apart    == (n = 0 /\ cal.n = 0) => \A t, u \in 1..Len(Tasks), a, b \in 0..3 : (t # u \/ a # b) => Line(s, t, a, <<97>>, 1, <<98>>) # Line(s, u, b, <<97>>, 1, <<98>>)

Emit == (Gen /\ script' # script) => PrintT("S " \o ToJson(script'))
=============================================================================
