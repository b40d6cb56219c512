------------------------------- MODULE TraceLog -----------------------------
(* Accepts what the log may write.                                           *)
EXTENDS Log, FiniteSets, Json, IOUtils, TLC

CONSTANTS Chans

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, st
vars == <<tr, l, st>>

\* Place.cpp, plain.hpp, %s%n.cc
Places == << <<80, 108, 97, 99, 101, 46, 99, 112, 112>>, <<112, 108, 97, 105, 110, 46, 104, 112, 112>>, <<37, 115, 37, 110, 46, 99, 99>> >>
Lines  == <<7, 12345, 100>>

Text(how, n, d) == IF how = 0 THEN d ELSE <<78, 111, 45>> \o Dec(n) \o <<44, 32>> \o d          \* "No-%u, %s"
Of(s, i, p, text) == IF Shown(s, i.t + 1, i.l) THEN Line(s, i.t + 1, i.l, Places[p + 1], Lines[p + 1], text) ELSE <<>>

After(s, i) ==
    CASE i.op = "lvl" -> SetLevel(s, i.t + 1, i.l)
      [] i.op = "clk" -> SetClock(s, i.d, i.s, i.us)
      [] i.op = "tz"  -> SetZone(s, i.m)
      [] OTHER        -> s

Diffs(s, i, o) ==
    LET D(ch, e, v) == IF e = v THEN <<>> ELSE << <<ch, e, v>> >>
        n == After(s, i)
        all == D("lv", [t \in 1..Len(Tasks) |-> n.lev[t]], o.lv)
          \o (IF i.op = "thr"
                THEN LET want == TLCEval([k \in 1..i.n |-> [j \in 1..i.per |-> Of(s, i, (k - 1) % 3, Text(1, (k - 1) * 1000 + j - 1, i.d))]])
                         at(k, j) == {x \in 1..Len(o.lines) : o.lines[x] = want[k][j]}
                     IN  IF ~Shown(s, i.t + 1, i.l) THEN D("line", <<>>, o.lines)
                         ELSE D("line", i.n * i.per, Len(o.lines))
                              \o LET J == {<<k, j>> \in (1..i.n) \X (1..i.per) : Cardinality(at(k, j)) # 1} IN
                                 IF J # {} THEN << <<"line", "once each", J>> >>
                                 ELSE LET where(k, j) == CHOOSE x \in at(k, j) : TRUE
                                          B == {<<k, j>> \in (1..i.n) \X (2..i.per) : where(k, j) < where(k, j - 1)}
                                      IN  IF B # {} THEN << <<"line", "in order", B>> >> ELSE <<>>
                ELSE IF i.op = "log" /\ Shown(s, i.t + 1, i.l) /\ Written(s, i.t + 1, i.l, Places[i.p + 1], Lines[i.p + 1], Text(i.how, i.n, i.d), o.out) THEN <<>>
                ELSE D("line", IF i.op = "log" THEN Of(s, i, i.p, Text(i.how, i.n, i.d)) ELSE <<>>, o.out))
    IN  SelectSeq(all, LAMBDA d : d[1] \in Chans)

Init == tr \in 1..Len(Traces) /\ l = 1 /\ st = Log0
Steps == Traces[tr].steps
Next ==
    /\ l <= Len(Steps)
    /\ tr' = tr
    /\ LET i == Steps[l].i
           d == Diffs(st, i, Steps[l].o)
       IN  IF d # <<>>
           THEN /\ PrintT(<<"MISMATCH", Traces[tr].id, l, ToJson(d)>>)
                /\ l' = Len(Steps) + 1 /\ st' = Log0
           ELSE /\ l = Len(Steps) => PrintT(<<"DONE", Traces[tr].id, "ok">>)
                /\ l' = l + 1
                /\ st' = After(st, i)
Spec == Init /\ [][Next]_vars
=============================================================================
