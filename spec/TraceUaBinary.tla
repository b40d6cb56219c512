--------------------------- MODULE TraceUaBinary ----------------------------
(* Decides whether what the codec did with every input is what the encoding  *)
(* prescribes.                                                               *)
EXTENDS UaBinary, Json, IOUtils

CONSTANTS Chans, Cap

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr, l
vars == <<tr, l>>

\* the value of a type when nothing was set
RECURSIVE Zero(_)
Zero(t) ==
    IF t = "Boolean" THEN <<0>>
    ELSE IF t = "NodeId" THEN <<0, <<0, 0>>, Z4>>
    ELSE IF t = "ExpandedNodeId" THEN <<Zero("NodeId"), <<>>, <<>> >>
    ELSE IF t = "ExtensionObject" THEN <<Zero("NodeId"), <<>> >>
    ELSE IF t \in DOMAIN Fixed THEN [j \in 1..Fixed[t] |-> 0]
    ELSE IF t \in DOMAIN Struct THEN [j \in 1..Len(Struct[t]) |-> Zero(Struct[t][j])]
    ELSE IF t \in DOMAIN Masked THEN [j \in 1..Len(Masked[t]) |-> <<>>]
    ELSE <<>>

\* two values are compared (da, db: the dimensions given to two Variants, if any); open: values that can be encoded in more than one way
DiffsEq(i, o) ==
    LET x == Dec(i.t, i.a, 0)
        y == Dec(i.t, i.b, 0)
        B(c) == IF c THEN 1 ELSE 0
        D(e, v) == IF e = v THEN {} ELSE {<<"eq", ToString(e), ToString(v)>>}
        plain == i.t = "LocalizedText" \/ (Enc(i.t, x.v) = SubSeq(i.a, 1, x.p) /\ Enc(i.t, y.v) = SubSeq(i.b, 1, y.p))
    IN  IF x.r # "ok" \/ y.r # "ok" THEN {}
        ELSE IF ~plain THEN {}
        ELSE IF o.r # "ok" THEN {<<"eq", "ok", o.r>>}
        ELSE LET s == B(Same(i.t, x.v, y.v) /\ ("da" \in DOMAIN i => i.da = i.db)) IN
             D(<<s, s, B(Same(i.t, x.v, x.v)), B(Same(i.t, y.v, y.v))>>, <<o.ab, o.ba, o.aa, o.bb>>)

Diffs(i, o) ==
    LET D(ch, e, v) == IF e = v THEN {} ELSE {<<ch, ToString(e), ToString(v)>>}
        all ==
          IF i.op = "eq" THEN DiffsEq(i, o)
          ELSE IF i.op = "new"
          THEN D("enc", Enc("ExpandedNodeId", TypeIdOf(i.t)) \o Enc(i.t, Zero(i.t)), o.e)
          ELSE LET x == Dec(i.t, i.b, 0) IN
               IF x.r = "wild" THEN {}
               ELSE IF x.r = "fail" THEN D("dec", "fail", o.r)
               ELSE IF o.r # "ok" THEN {<<"dec", "ok", o.r>>}
               ELSE LET e == Enc(i.t, x.v)
                        n == IF e = <<>> THEN i.n ELSE IF i.n * Len(e) <= Cap THEN i.n ELSE Cap \div Len(e) IN
                    D("dec", x.p, o.u) \cup D("dec", x.v, o.v)
                    \cup D("enc", IF n = 0 THEN <<>> ELSE e, o.e)
                    \cup D("cap", n, o.n)
                    \cup (IF o.sz <= Cap THEN {} ELSE {<<"cap", ToString(Cap), ToString(o.sz)>>})
    IN  {d \in all : d[1] \in Chans}

Init == tr \in 1..Len(Traces) /\ l = 1

Steps == Traces[tr].steps

Next ==
    /\ l <= Len(Steps)
    /\ tr' = tr
    /\ LET d == Diffs(Steps[l].i, Steps[l].o) IN
       IF d # {}
       THEN PrintT(<<"MISMATCH", Traces[tr].id, l, ToJson(d)>>) /\ l' = Len(Steps) + 1
       ELSE (l = Len(Steps) => PrintT(<<"DONE", Traces[tr].id, "ok">>)) /\ l' = l + 1

Spec == Init /\ [][Next]_vars
=============================================================================
