-------------------------- MODULE TraceController ---------------------------
(* Accepts the behaviours of the controller, connector and detector the      *)
(* specification allows. The first step of every trace tells the pattern.    *)
EXTENDS Controller, Json, IOUtils

CONSTANT Chans

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr, l, st
vars == <<tr, l, st>>

Rv == Traces[1].steps[1].o.rv

\* messages to different components: their order does not matter
Count(s, x) == Cardinality({j \in 1..Len(s) : s[j].m = x.m /\ s[j] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : Count(a, a[j]) = Count(b, a[j])

Of(s, ch) == SelectSeq(s, LAMBDA e :
    IF ch = "test" THEN e.m \in {"mcfg", "madu", "arsp", "mrel", "unknown"} ELSE e.m \notin {"madu", "arsp"})
\* neither does the order in which client and server are configured
Norm(s) == [j \in 1..Len(s) |-> IF s[j].m = "mcfg" THEN [m |-> "mcfg", n |-> Len(s[j].items), items |-> {s[j].items[k] : k \in 1..Len(s[j].items)}] ELSE s[j]]

Diffs(i, o, r) ==
    LET D(ch) == LET e == Norm(Of(r.out, ch)) v == Norm(Of(o.post, ch)) IN
                 IF SameBag(e, v) THEN {} ELSE {<<ch, ToString(e), ToString(v)>>}
        T == IF (r.st.mb = "off" /\ o.tm # 0) \/ o.tm > 1 THEN {<<"res", "timers", ToString(o.tm)>>} ELSE {}
    IN  {d \in D("life") \cup D("test") \cup T : d[1] \in Chans}

Init == /\ tr \in 1..Len(Traces)
        /\ l = 2
        /\ st = Init0

Steps == Traces[tr].steps

Done(k) == PrintT(<<"DONE", Traces[tr].id, k>>)

Next ==
    /\ l <= Len(Steps)
    /\ tr' = tr
    /\ LET i == Steps[l].i
           o == Steps[l].o
           r == Step(st, i, Rv)
       IN  IF r.st.wild
           THEN Done("wild") /\ l' = Len(Steps) + 1 /\ st' = Init0
           ELSE LET d == Diffs(i, o, r) IN
                IF d # {}
                THEN /\ PrintT(<<"MISMATCH", Traces[tr].id, l, ToJson(d)>>)
                     /\ l' = Len(Steps) + 1 /\ st' = Init0
                ELSE /\ l = Len(Steps) => Done("ok")
                     /\ l' = l + 1
                     /\ st' = r.st

Spec == Init /\ [][Next]_vars
=============================================================================
