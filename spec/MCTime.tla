------------------------------- MODULE MCTime -------------------------------
(* The calendar, year by year from 1601 on: DateTime counts every day of it. *)
EXTENDS UaTime, Json, TLC

CONSTANTS Last,        \* last year
          Gen          \* TRUE: print replay scripts

VARIABLES y,           \* year
          d,           \* 100 ns from the start of 1601 to the start of the year
          u            \* seconds from the start of 1970 to the start of the year
vars == <<y, d, u>>
View == vars

Leap(n) == n % 4 = 0 /\ (n % 100 # 0 \/ n % 400 = 0)
Secs(n) == (IF Leap(n) THEN 366 ELSE 365) * 86400

Init == y = 1601 /\ d = Zero /\ u = Zero
Next == /\ y < Last
        /\ y' = y + 1
        /\ d' = Plus(d, Ticks(Num(Secs(y))))
        /\ u' = IF y >= 1970 THEN Plus(u, Num(Secs(y))) ELSE u
Spec == Init /\ [][Next]_vars

Back(b, n) == [j \in 1..n |-> b[n + 1 - j]]
\* moments of a year: seconds from its start, microseconds
Moments == {<<0, 0>>, <<0, 1>>, <<0, 999999>>, <<1, 500000>>, <<59, 7>>, <<86399, 999999>>, <<86400 * 59, 256>>, <<86400 * 180 + 4000, 65536>>, <<31535999, 999999>>}

Counts == y >= 1970 => \A m \in Moments : DateTime(Back(Plus(u, Num(m[1])), 5), m[2]) = Back(Plus(Plus(d, Ticks(Num(m[1]))), Num(m[2] * 10)), 8)
\* the years since 1601 add up to what lies before 1970
Meets  == y = 1970 => d = Ticks(Epoch)

RECURSIVE Clocks(_)
Clocks(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : TRUE IN
          <<[op |-> "clk", s |-> Back(Plus(u, Num(m[1])), 5), us |-> m[2]]>> \o Clocks(S \ {m})
Emit == (Gen /\ y >= 1970 /\ y < 2260 /\ (y < 2060 \/ y % 10 = 0)) => PrintT("S " \o ToJson(Clocks(Moments)))
=============================================================================
