---------------------------- MODULE MCUaBinary ------------------------------
(* Checks of the encoding itself: every value has one encoding, decoding it  *)
(* gives the value back and takes exactly its bytes, and no part of it       *)
(* decodes. Every value checked is also a replay script.                     *)
EXTENDS UaBinary, Json

CONSTANTS Part,     \* "builtin" | "message" | "eq", "eqv": pairs of built-in values
          Wide      \* more values per field

VARIABLES t, v, y2, hist, done
vars == <<t, v, y2, hist, done>>
View == <<t, v, y2, done>>

Small  == Part = "message" /\ ~Wide
Num(n) == {[j \in 1..n |-> 0], [j \in 1..n |-> IF j = 1 THEN 128 ELSE j]}
          \cup (IF Small THEN {} ELSE {[j \in 1..n |-> 255], [j \in 1..n |-> IF j = n THEN 1 ELSE 0]})
          \cup (IF Wide THEN {[j \in 1..n |-> IF j = k THEN 200 + k ELSE 0] : k \in 1..n} ELSE {})
Str    == {<<>>, <<66, 0, 255>>} \cup (IF Wide /\ Part = "builtin" THEN {[j \in 1..300 |-> j % 256]} ELSE {})
Guid1  == << <<1, 2, 3, 4>>, <<5, 6>>, <<7, 8>>, <<9>>, <<10>>, <<11>>, <<12>>, <<13>>, <<14>>, <<15>>, <<16>> >>
Nodes  == IF Small THEN {<<0, <<0, 0>>, <<0, 0, 0, 9>> >>, <<0, <<2, 1>>, <<255, 254, 253, 252>> >>, <<3, <<0, 2>>, <<72, 105>> >>} ELSE
          {<<0, <<0, 0>>, <<0, 0, 0, 9>> >>, <<0, <<0, 0>>, <<0, 0, 0, 255>> >>, <<0, <<0, 0>>, <<0, 0, 1, 0>> >>,
           <<0, <<0, 255>>, <<0, 0, 255, 255>> >>, <<0, <<0, 1>>, <<0, 0, 0, 7>> >>, <<0, <<1, 0>>, <<0, 0, 0, 1>> >>,
           <<0, <<0, 0>>, <<0, 1, 0, 0>> >>, <<0, <<2, 1>>, <<255, 254, 253, 252>> >>,
           <<3, <<0, 2>>, <<72, 105>> >>, <<3, <<1, 2>>, <<>> >>, <<4, <<0, 3>>, Guid1>>, <<5, <<3, 0>>, <<1, 0, 2>> >>}
          \cup (IF Part # "eq" THEN {} ELSE {<<5, <<0, 2>>, <<72, 105>> >>, <<0, <<0, 2>>, <<72, 105, 0, 0>> >>, <<4, <<0, 2>>, Guid1>>})

\* some values of a type; of a structure, those that differ from a default in one field
RECURSIVE Vals(_), Def(_)
Def(x) ==
    IF x = "Boolean" THEN <<1>>
    ELSE IF x = "NodeId" THEN <<0, <<0, 0>>, <<0, 0, 0, 9>> >>
    ELSE IF x = "ExpandedNodeId" THEN <<Def("NodeId"), <<>>, <<>> >>
    ELSE IF x = "Variant" THEN <<6, 0, <<1, 2, 3, 4>> >>
    ELSE IF x = "ExtensionObject" THEN <<Def("NodeId"), <<5, 6>> >>
    ELSE IF x \in Strs THEN <<66, 0, 255>>
    ELSE IF x \in DOMAIN Fixed THEN [j \in 1..Fixed[x] |-> IF j = 1 THEN 128 ELSE j]
    ELSE IF x \in DOMAIN Struct THEN [j \in 1..Len(Struct[x]) |-> Def(Struct[x][j])]
    ELSE IF x \in DOMAIN Masked THEN [j \in 1..Len(Masked[x]) |-> IF j % 2 = 1 /\ j < 7 THEN <<Def(Masked[x][j][2])>> ELSE <<>>]
    ELSE <<Def(ArrElem[x])>>
OneOff(ts) == LET d == [j \in 1..Len(ts) |-> Def(ts[j])] IN
              {d} \cup UNION {{[d EXCEPT ![j] = y] : y \in Vals(ts[j])} : j \in 1..Len(ts)}
Opt(x, j) == {<<y>> : y \in Vals(x)} \ (IF x \in {"String", "Variant"} THEN {<< <<>> >>} ELSE {})
Vals(x) ==
    IF x = "Boolean" THEN {<<0>>, <<1>>}
    ELSE IF x = "NodeId" THEN Nodes
    ELSE IF x = "ExpandedNodeId"
         THEN {<<n, <<>>, <<>> >> : n \in Nodes}
              \cup {<<n, u, s>> : n \in {<<0, <<0, 0>>, <<0, 0, 0, 9>> >>, <<3, <<0, 2>>, <<72, 105>> >>},
                                  u \in {<<>>, << <<85>> >>}, s \in {<<>>, << <<1, 2, 3, 4>> >>}}
    ELSE IF x = "Variant" /\ Part = "message" THEN {<<>>, <<6, 0, <<1, 2, 3, 4>> >>, <<12, 1, << <<65>>, <<>> >> >>}
    ELSE IF x = "Variant"
         THEN {<<>>} \cup UNION {{<<k, 0, y>> : y \in Vals(VarType[k])} : k \in (1..22) \ {16}}
              \cup UNION {{<<k, 1, <<>> >>} \cup {<<k, 1, <<y, Def(VarType[k])>> >> : y \in Vals(VarType[k])}
                          : k \in (1..22) \ {16}}
    ELSE IF x = "ExtensionObject" THEN {<<n, b>> : n \in {<<0, <<0, 0>>, Z4>>, <<0, <<0, 0>>, <<0, 0, 1, 65>> >>}, b \in Str}
    ELSE IF x \in Strs THEN Str
    ELSE IF x \in DOMAIN Fixed THEN Num(Fixed[x])
    ELSE IF x \in DOMAIN Struct THEN OneOff(Struct[x])
    ELSE IF x = "DiagnosticInfo"
         THEN LET z == [j \in 1..7 |-> <<>>]
                  f == [j \in 1..7 |-> IF j = 7 THEN <<z>> ELSE CHOOSE y \in Opt(Masked[x][j][2], j) : TRUE]
              IN  {z, f, [z EXCEPT ![7] = <<f>>], [z EXCEPT ![1] = << <<1, 2, 3, 4>> >>, ![7] = << [z EXCEPT ![7] = <<z>>] >>]}
                  \cup UNION {{[z EXCEPT ![j] = y] : y \in Opt(Masked[x][j][2], j)} : j \in 1..6}
    ELSE IF x \in DOMAIN Masked
         THEN LET m == Masked[x]
                  z == [j \in 1..Len(m) |-> <<>>]
                  f == [j \in 1..Len(m) |-> CHOOSE y \in Opt(m[j][2], j) : TRUE]
              IN  {z, f} \cup UNION {{[z EXCEPT ![j] = y] : y \in Opt(m[j][2], j)} : j \in 1..Len(m)}
                  \cup {[f EXCEPT ![j] = <<>>] : j \in 1..Len(m)}
    ELSE LET e == ArrElem[x] IN {<<>>} \cup {<<y>> : y \in Vals(e)} \cup {<<Def(e), Def(e), Def(e)>>}

Builtin == (DOMAIN Fixed) \cup Strs \cup DOMAIN Masked
           \cup {"Boolean", "Guid", "NodeId", "ExpandedNodeId", "Variant", "ExtensionObject", "QualifiedName"}
Message == (DOMAIN Struct) \ {"Guid", "QualifiedName"}

Types == IF Part = "builtin" THEN Builtin
         ELSE IF Part = "eqv" THEN {"Variant", "DataValue"}
         ELSE IF Part = "eq" THEN (Builtin \ {"Variant", "DataValue"}) \cup {Arr(e) : e \in {"Float", "NodeId", "DiagnosticInfo"}} ELSE Message
Pairs == Part \in {"eq", "eqv"}

AllVals == [x \in Types |-> Vals(x)]

\* what v is compared with: of a Variant, those of the same kind and one other
Others(x) == IF t = "DataValue" THEN {y \in AllVals[t] : y[1] = x[1] \/ y[1] = <<>> \/ y[1] = <<Def("Variant")>>}
             ELSE IF t # "Variant" THEN AllVals[t]
             ELSE {y \in AllVals[t] : y = <<>> \/ x = <<>> \/ y = Def("Variant") \/ (y[1] = x[1] /\ (y[2] = x[2] \/ Len(y[3]) = 0))}

Op(b) == [op |-> "dec", t |-> t, b |-> b, n |-> 2]

Init == /\ t \in Types
        /\ v \in AllVals[t]
        /\ y2 \in IF Pairs THEN Others(v) ELSE {<<>>}
        /\ done = FALSE
        /\ hist = <<>>

Next == /\ ~done
        /\ done' = TRUE
        /\ hist' = LET e == Enc(t, v) IN
                   IF Pairs THEN <<[op |-> "eq", t |-> t, a |-> e, b |-> Enc(t, y2)]>> ELSE
                   <<Op(e), Op(e \o <<7>>), Op(SubSeq(e, 1, Len(e) - 1)), Op(SubSeq(e, 1, Len(e) \div 2))>>
        /\ UNCHANGED <<t, v, y2>>

Spec == Init /\ [][Next]_vars

Emit == PrintT("S " \o ToJson(hist'))

RoundTrip == LET e == Enc(t, v)
                 x == Dec(t, e \o <<7>>, 0)
             IN  x.r = "ok" /\ x.p = Len(e) /\ x.v = v
\* of a long encoding, some of the parts
NoPrefix  == LET e == Enc(t, v)
                 n == Len(e)
             IN  \A k \in {j \in 0..(n - 1) : n < 40 \/ (Wide /\ n < 100) \/ j % 17 = 3 \/ n - j < 4} : Dec(t, SubSeq(e, 1, k), 0).r = "fail"
\* apart from numbers, the same is what is encoded the same
Nums(x) == x \in {"Float", "Double"}
AsEncoded == (Pairs /\ ~Nums(t) /\ t # "[]Float" /\ ~(t = "Variant" /\ v # <<>> /\ Nums(VarType[v[1]]))
                                                        /\ ~(t = "DataValue" /\ v[1] # <<>> /\ Nums(VarType[v[1][1][1]])))
             => /\ Same(t, v, y2) = (Enc(t, v) = Enc(t, y2))
                /\ Same(t, v, v)
Symmetric == Pairs => Same(t, v, y2) = Same(t, y2, v)
=============================================================================
