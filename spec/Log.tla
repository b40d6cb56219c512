-------------------------------- MODULE Log ---------------------------------
(* The log: every task has a level; a message at or above the level of its   *)
(* task is written as one line that tells when, how bad, who and where.      *)
(* Text is bytes. Levels: 0 debug .. 3 error, 4 (of a task only) nothing.    *)
EXTENDS Integers, Sequences

Tasks  == << <<71, 69, 78>>, <<67, 84, 82, 76>>, <<77, 79, 68, 66, 85, 83>>, <<85, 65, 84, 76>>, <<85, 65, 83, 67>>,
             <<85, 65, 83, 82, 86>>, <<85, 65>> >>                           \* GEN CTRL MODBUS UATL UASC UASRV UA
Levels == << <<68, 66, 71>>, <<73, 78, 70>>, <<87, 82, 78>>, <<69, 82, 82>> >>   \* DBG INF WRN ERR
Room   == 1023                                                               \* longer texts may be cut

\* Modbus and the controller are silent at first
Log0 == [lev |-> [t \in 1..Len(Tasks) |-> IF t \in {2, 3} THEN 4 ELSE 0], day |-> 19675, sec |-> 80000, us |-> 5, tz |-> 0]

SetLevel(s, t, lv) == [s EXCEPT !.lev[t] = lv]
SetClock(s, d, n, us) == [s EXCEPT !.day = d, !.sec = n, !.us = us]
SetZone(s, m) == [s EXCEPT !.tz = m]
Shown(s, t, lv) == lv >= s.lev[t]

RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
Two(n)   == <<48 + n \div 10, 48 + (n % 10)>>
Three(n) == <<48 + n \div 100>> \o Two(n % 100)

\* the day of the calendar, n days after the first of 1970 (n >= -1)
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
Civil(n) ==
    LET z   == n + 719468                                                    \* from the first of March of the year 0
        era == z \div 146097
        e   == z % 146097
        ye  == ((e - (e \div 1460)) + (e \div 36524) - (e \div 146096)) \div 365
        dy  == e - (365 * ye + (ye \div 4) - (ye \div 100))
        mp  == (5 * dy + 2) \div 153
        m   == IF mp < 10 THEN mp + 3 ELSE mp - 9
    IN  [y |-> ye + 400 * era + (IF m <= 2 THEN 1 ELSE 0), m |-> m, d |-> (dy - ((153 * mp + 2) \div 5)) + 1]

When(s) ==
    LET l == s.sec + s.tz * 60
        n == IF l < 0 THEN l + 86400 ELSE l % 86400
        c == Civil(s.day + (IF l < 0 THEN -1 ELSE l \div 86400))
    IN  Two(c.d) \o <<45>> \o Two(c.m) \o <<45>> \o Dec(c.y) \o <<32>> \o Two(n \div 3600) \o <<58>> \o Two((n \div 60) % 60) \o <<58>> \o Two(n % 60)
        \o <<46>> \o Three(s.us \div 1000)

\* file: its name without the way to it
Front(s, t, lv, file, line) ==
    When(s) \o <<32>> \o Levels[lv + 1] \o <<32, 91>> \o Tasks[t] \o <<93, 32>> \o file \o <<32>> \o Dec(line) \o <<58, 32>>
\* the text as it may appear: whole, or cut after no fewer than Room
Line(s, t, lv, file, line, text) == Front(s, t, lv, file, line) \o text \o <<10>>
Written(s, t, lv, file, line, text, out) ==
    LET w == Line(s, t, lv, file, line, text)
        least == Len(w) - Len(text) + Room
    IN  out = w \/ (Len(text) > Room /\ Len(out) >= least /\ Len(out) < Len(w) /\ out = SubSeq(w, 1, Len(out) - 1) \o <<10>>)
=============================================================================
