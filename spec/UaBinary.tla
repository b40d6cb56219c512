------------------------------ MODULE UaBinary ------------------------------
(* The OPC UA binary encoding (OPC 10000-6), as far as the server uses it:   *)
(* the built-in types and the messages, as one table of types with a decoder *)
(* and an encoder interpreting it.                                           *)
(*                                                                           *)
(* Values. Numbers are tuples of bytes, most significant first (TLC has only *)
(* 32 bit integers); strings and byte strings are tuples of bytes; arrays    *)
(* and structures are tuples; an optional value is <<>> or <<v>>.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[j] : j \in 1..Len(s)}
Rev(s)   == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
U8(n)    == <<n>>
U16(n)   == <<(n \div 256) % 256, n % 256>>
U32(n)   == <<(n \div 16777216) % 256, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
U64(n)   == <<0, 0, 0, 0>> \o U32(n)
Z4       == <<0, 0, 0, 0>>
Z8       == <<0, 0, 0, 0, 0, 0, 0, 0>>
\* the successor of a 32 bit number
Succ32(v) ==
    IF v[4] < 255 THEN <<v[1], v[2], v[3], v[4] + 1>>
    ELSE IF v[3] < 255 THEN <<v[1], v[2], v[3] + 1, 0>>
    ELSE IF v[2] < 255 THEN <<v[1], v[2] + 1, 0, 0>>
    ELSE <<(v[1] + 1) % 256, 0, 0, 0>>

Bit(n, k) == (n \div k) % 2 = 1      \* k a power of two

-----------------------------------------------------------------------------
(* types *)
Fixed == [SByte |-> 1, Byte |-> 1, Int16 |-> 2, UInt16 |-> 2, Int32 |-> 4, UInt32 |-> 4, Int64 |-> 8,
          UInt64 |-> 8, Float |-> 4, Double |-> 8, DateTime |-> 8, StatusCode |-> 4]
Strs  == {"String", "ByteString"}
Arr(t) == "[]" \o t

\* the types a Variant can hold, by their id
VarType == <<"Boolean", "SByte", "Byte", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Float",
             "Double", "String", "DateTime", "Guid", "ByteString", "XmlElement", "NodeId", "ExpandedNodeId",
             "StatusCode", "QualifiedName", "LocalizedText", "ExtensionObject">>

\* the types of the elements of arrays
Elems   == Range(VarType) \cup {"DataValue", "DiagnosticInfo", "EndpointDescription", "UserTokenPolicy", "ReadValueId"}
ArrElem == [a \in {Arr(e) : e \in Elems} |-> CHOOSE e \in Elems : Arr(e) = a]

Hdr4 == <<"Byte", "Byte", "Byte", "Byte">>

Plain ==
  [Guid                |-> <<"UInt32", "UInt16", "UInt16", "Byte", "Byte", "Byte", "Byte", "Byte", "Byte", "Byte", "Byte">>,
   QualifiedName       |-> <<"UInt16", "String">>,
   MessageHeader       |-> Hdr4 \o <<"UInt32">>,
   UaMessageHeader     |-> Hdr4 \o <<"UInt32", "UInt32">>,
   HelloMessage        |-> <<"UInt32", "UInt32", "UInt32", "UInt32", "UInt32", "String">>,
   AcknowledgeMessage  |-> <<"UInt32", "UInt32", "UInt32", "UInt32", "UInt32">>,
   ErrorMessage        |-> <<"UInt32", "String">>,
   ReverseHelloMessage |-> <<"String", "String">>,
   SecurityHeader      |-> <<"ByteString", "ByteString", "ByteString">>,
   TokenHeader         |-> <<"UInt32">>,
   SequenceHeader      |-> <<"UInt32", "UInt32">>,
   \* token, timestamp, handle, diagnostics, audit id, timeout hint, additional header
   RequestHeader       |-> <<"NodeId", "DateTime", "UInt32", "UInt32", "String", "UInt32", "ExtensionObject">>,
   \* timestamp, handle, result, diagnostics, strings, additional header
   ResponseHeader      |-> <<"DateTime", "UInt32", "StatusCode", "DiagnosticInfo", Arr("String"), "ExtensionObject">>,
   SignatureData       |-> <<"String", "ByteString">>,
   ApplicationDescription |-> <<"String", "String", "LocalizedText", "Int32", "String", "String", Arr("String")>>,
   UserTokenPolicy     |-> <<"String", "Int32", "String", "String", "String">>,
   EndpointDescription |-> <<"String", "ApplicationDescription", "ByteString", "Int32", "String",
                             Arr("UserTokenPolicy"), "String", "Byte">>,
   ChannelSecurityToken |-> <<"UInt32", "UInt32", "DateTime", "UInt32">>,
   OpenSecureChannelReq |-> <<"RequestHeader", "UInt32", "Int32", "Int32", "ByteString", "UInt32">>,
   OpenSecureChannelRsp |-> <<"ResponseHeader", "UInt32", "ChannelSecurityToken", "ByteString">>,
   CloseSecureChannelReq |-> <<"RequestHeader">>,
   CloseSecureChannelRsp |-> <<"ResponseHeader">>,
   GetEndpointsReq     |-> <<"RequestHeader", "String", Arr("String"), Arr("String")>>,
   GetEndpointsRsp     |-> <<"ResponseHeader", Arr("EndpointDescription")>>,
   CreateSessionReq    |-> <<"RequestHeader", "ApplicationDescription", "String", "String", "String", "ByteString",
                             "ByteString", "Double", "UInt32">>,
   CreateSessionRsp    |-> <<"ResponseHeader", "NodeId", "NodeId", "Double", "ByteString", "ByteString",
                             Arr("EndpointDescription"), Arr("Byte"), "SignatureData", "UInt32">>,
   ActivateSessionReq  |-> <<"RequestHeader", "SignatureData", Arr("Byte"), Arr("String"), "ExtensionObject",
                             "SignatureData">>,
   ActivateSessionRsp  |-> <<"ResponseHeader", "ByteString", Arr("StatusCode"), Arr("DiagnosticInfo")>>,
   CloseSessionReq     |-> <<"RequestHeader", "Boolean">>,
   CloseSessionRsp     |-> <<"ResponseHeader">>,
   ReadValueId         |-> <<"NodeId", "UInt32", "String", "QualifiedName">>,
   ReadReq             |-> <<"RequestHeader", "Double", "Int32", Arr("ReadValueId")>>,
   ReadRsp             |-> <<"ResponseHeader", Arr("DataValue"), Arr("DiagnosticInfo")>>]

\* messages behind their type id
Cont == [OpenSecureChannelReq |-> 446, OpenSecureChannelRsp |-> 449, CloseSecureChannelReq |-> 452,
         CloseSecureChannelRsp |-> 455, GetEndpointsReq |-> 428, GetEndpointsRsp |-> 431,
         CreateSessionReq |-> 461, CreateSessionRsp |-> 464, ActivateSessionReq |-> 467, ActivateSessionRsp |-> 470,
         CloseSessionReq |-> 473, CloseSessionRsp |-> 476, ReadReq |-> 631, ReadRsp |-> 634]

Struct == Plain @@ [t \in {m \o "Cont" : m \in DOMAIN Cont} |->
                       <<"ExpandedNodeId", CHOOSE m \in DOMAIN Cont : m \o "Cont" = t>>]
TypeIdOf(m) == << <<0, <<0, 0>>, U32(Cont[m])>>, <<>>, <<>> >>

\* types with a byte saying which of the parts follow: <<bit, type>> in the order they follow
Masked ==
  [LocalizedText  |-> << <<1, "String">>, <<2, "String">> >>,
   DiagnosticInfo |-> << <<1, "Int32">>, <<2, "Int32">>, <<4, "Int32">>, <<8, "Int32">>, <<16, "String">>,
                         <<32, "StatusCode">>, <<64, "DiagnosticInfo">> >>,
   DataValue      |-> << <<1, "Variant">>, <<2, "StatusCode">>, <<4, "DateTime">>, <<16, "UInt16">>,
                         <<8, "DateTime">>, <<32, "UInt16">> >>]
MaskAll == [LocalizedText |-> 3, DiagnosticInfo |-> 127, DataValue |-> 63]

-----------------------------------------------------------------------------
(* Decoding: Dec(t, b, p) takes a value of type t from the bytes b after the *)
(* first p: [r, p, v] with r = "ok", "fail" (not a value of the type) or     *)
(* "wild" (what to make of it is left open: reserved bits, unsupported       *)
(* parts of the encoding).                                                   *)
Fail == [r |-> "fail", p |-> 0, v |-> <<>>]
Wild == [r |-> "wild", p |-> 0, v |-> <<>>]
Ok(p, v) == [r |-> "ok", p |-> p, v |-> v]

DecFixed(n, b, p) == IF p + n > Len(b) THEN Fail ELSE Ok(p + n, [j \in 1..n |-> b[p + n + 1 - j]])

\* a length: null counts as empty; never more than what is left
DecLen(b, p) ==
    IF p + 4 > Len(b) THEN Fail
    ELSE LET w == b[p + 1]  x == b[p + 2]  y == b[p + 3]  z == b[p + 4] IN
         IF w = 255 /\ x = 255 /\ y = 255 /\ z = 255 THEN Ok(p + 4, 0)
         ELSE IF y # 0 \/ z # 0 \/ w + 256 * x > Len(b) - p - 4 THEN Fail
         ELSE Ok(p + 4, w + 256 * x)

DecStr(b, p) ==
    LET n == DecLen(b, p) IN
    IF n.r # "ok" THEN n ELSE Ok(n.p + n.v, SubSeq(b, n.p + 1, n.p + n.v))

RECURSIVE Dec(_, _, _), DecAll(_, _, _, _), DecRep(_, _, _, _, _), DecMask(_, _, _, _, _, _)

\* the values of the types ts, one after another
DecAll(ts, b, p, acc) ==
    IF ts = <<>> THEN Ok(p, acc)
    ELSE LET x == Dec(Head(ts), b, p) IN
         IF x.r # "ok" THEN x ELSE DecAll(Tail(ts), b, x.p, Append(acc, x.v))

DecRep(n, t, b, p, acc) ==
    IF n = 0 THEN Ok(p, acc)
    ELSE IF t \in DOMAIN Fixed
    THEN LET w == Fixed[t] IN
         IF p + n * w > Len(b) THEN Fail
         ELSE Ok(p + n * w, [k \in 1..n |-> [j \in 1..w |-> b[p + k * w + 1 - j]]])
    ELSE IF t = "Boolean"
    THEN IF p + n > Len(b) THEN Fail ELSE Ok(p + n, [k \in 1..n |-> <<IF b[p + k] = 0 THEN 0 ELSE 1>>])
    ELSE LET x == Dec(t, b, p) IN
         IF x.r # "ok" THEN x ELSE DecRep(n - 1, t, b, x.p, Append(acc, x.v))

\* a part that is there but holds the null Variant counts as not there
DecMask(ps, j, m, b, p, acc) ==
    IF j > Len(ps) THEN Ok(p, acc)
    ELSE IF ~Bit(m, ps[j][1]) THEN DecMask(ps, j + 1, m, b, p, Append(acc, <<>>))
    ELSE LET x == Dec(ps[j][2], b, p) IN
         IF x.r # "ok" THEN x ELSE DecMask(ps, j + 1, m, b, x.p, Append(acc, IF ps[j][2] = "Variant" /\ x.v = <<>> THEN <<>> ELSE <<x.v>>))

\* kind, namespace, identifier; flags are what the upper bits of the first byte may be
DecNodeId(b, p, flags) ==
    IF p + 1 > Len(b) THEN Fail
    ELSE LET e == b[p + 1]
             k == e % 16
             N(ts, kind) == LET x == DecAll(ts, b, p + 1, <<>>) IN
                            IF x.r # "ok" THEN x ELSE Ok(x.p, <<kind, x.v[1], x.v[2]>>)
             x == CASE k = 0 -> LET y == DecFixed(1, b, p + 1) IN
                                IF y.r # "ok" THEN y ELSE Ok(y.p, <<0, <<0, 0>>, <<0, 0, 0>> \o y.v>>)
                    [] k = 1 -> LET y == DecAll(<<"Byte", "UInt16">>, b, p + 1, <<>>) IN
                                IF y.r # "ok" THEN y
                                ELSE Ok(y.p, <<0, <<0>> \o y.v[1], <<0, 0>> \o y.v[2]>>)
                    [] k = 2 -> N(<<"UInt16", "UInt32">>, 0)
                    [] k = 3 -> N(<<"UInt16", "String">>, 3)
                    [] k = 4 -> N(<<"UInt16", "Guid">>, 4)
                    [] k = 5 -> N(<<"UInt16", "ByteString">>, 5)
                    [] OTHER -> Fail
         IN  IF x.r = "ok" /\ (e - k) \notin flags THEN Wild ELSE x

DecExpanded(b, p) ==
    LET n == DecNodeId(b, p, {0, 64, 128, 192}) IN
    IF n.r # "ok" THEN n
    ELSE LET u == IF Bit(b[p + 1], 128) THEN DecStr(b, n.p) ELSE Ok(n.p, <<>>) IN
         IF u.r # "ok" THEN u
         ELSE LET s == IF Bit(b[p + 1], 64) THEN DecFixed(4, b, u.p) ELSE Ok(u.p, <<>>) IN
              IF s.r # "ok" THEN s
              ELSE Ok(s.p, <<n.v, IF Bit(b[p + 1], 128) THEN <<u.v>> ELSE <<>>,
                             IF Bit(b[p + 1], 64) THEN <<s.v>> ELSE <<>> >>)

DecVariant(b, p) ==
    IF p + 1 > Len(b) THEN Fail
    ELSE LET m == b[p + 1]
             t == m % 64
             a == Bit(m, 128)
         IN  IF m = 0 THEN Ok(p + 1, <<>>)
             ELSE IF t = 0 \/ t > 22 THEN IF t \in {23, 24, 25} THEN Wild ELSE Fail
             ELSE IF Bit(m, 64) \/ t = 16 THEN Wild
             ELSE LET x == Dec(IF a THEN Arr(VarType[t]) ELSE VarType[t], b, p + 1) IN
                  IF x.r # "ok" THEN x ELSE Ok(x.p, <<t, IF a THEN 1 ELSE 0, x.v>>)

DecExtension(b, p) ==
    LET n == DecNodeId(b, p, {0}) IN
    IF n.r # "ok" THEN n
    ELSE IF n.p + 1 > Len(b) THEN Fail
    ELSE CASE b[n.p + 1] = 0 -> Ok(n.p + 1, <<n.v, <<>> >>)
           [] b[n.p + 1] = 1 -> LET x == DecStr(b, n.p + 1) IN IF x.r # "ok" THEN x ELSE Ok(x.p, <<n.v, x.v>>)
           [] OTHER -> Wild

Dec(t, b, p) ==
    IF t = "Boolean" THEN LET x == DecFixed(1, b, p) IN
                          IF x.r # "ok" THEN x ELSE Ok(x.p, <<IF x.v[1] = 0 THEN 0 ELSE 1>>)
    ELSE IF t = "NodeId" THEN DecNodeId(b, p, {0})
    ELSE IF t = "ExpandedNodeId" THEN DecExpanded(b, p)
    ELSE IF t = "Variant" THEN DecVariant(b, p)
    ELSE IF t = "ExtensionObject" THEN DecExtension(b, p)
    ELSE IF t \in Strs THEN DecStr(b, p)
    ELSE IF t \in DOMAIN Fixed THEN DecFixed(Fixed[t], b, p)
    ELSE IF t \in DOMAIN Struct THEN DecAll(Struct[t], b, p, <<>>)
    ELSE IF t \in DOMAIN Masked
         THEN IF p + 1 > Len(b) THEN Fail
              ELSE LET x == DecMask(Masked[t], 1, b[p + 1], b, p + 1, <<>>) IN
                   IF x.r = "ok" /\ b[p + 1] > MaskAll[t] THEN Wild ELSE x
    ELSE LET n == DecLen(b, p) IN
         IF n.r # "ok" THEN n ELSE DecRep(n.v, ArrElem[t], b, n.p, <<>>)

-----------------------------------------------------------------------------
(* Encoding: the bytes of a value. Empty strings are sent as null.           *)
EncLen(n) == <<n % 256, (n \div 256) % 256, 0, 0>>
EncStr(v) == IF v = <<>> THEN <<255, 255, 255, 255>> ELSE EncLen(Len(v)) \o v

RECURSIVE Enc(_, _), EncAll(_, _), EncRep(_, _, _), EncMask(_, _, _, _)
EncAll(ts, vs) == IF ts = <<>> THEN <<>> ELSE Enc(Head(ts), Head(vs)) \o EncAll(Tail(ts), Tail(vs))
EncRep(t, vs, j) ==
    IF t \in DOMAIN Fixed \cup {"Boolean"}
    THEN LET w == IF t = "Boolean" THEN 1 ELSE Fixed[t] IN
         [k \in 1..(Len(vs) * w) |-> vs[(k - 1) \div w + 1][w - ((k - 1) % w)]]
    ELSE IF j > Len(vs) THEN <<>> ELSE Enc(t, vs[j]) \o EncRep(t, vs, j + 1)
EncMask(ps, vs, j, S) ==
    IF j > Len(ps) THEN <<>>
    ELSE (IF j \in S THEN Enc(ps[j][2], vs[j][1]) ELSE <<>>) \o EncMask(ps, vs, j + 1, S)

RECURSIVE SumBits(_, _, _)
SumBits(ps, S, j) == IF j > Len(ps) THEN 0 ELSE (IF j \in S THEN ps[j][1] ELSE 0) + SumBits(ps, S, j + 1)

EncNodeId(v) ==
    LET k == v[1]  ns == v[2]  id == v[3] IN
    CASE k = 0 /\ ns = <<0, 0>> /\ SubSeq(id, 1, 3) = <<0, 0, 0>> -> <<0, id[4]>>
      [] k = 0 /\ ~(ns = <<0, 0>> /\ SubSeq(id, 1, 3) = <<0, 0, 0>>) /\ ns[1] = 0 /\ id[1] = 0 /\ id[2] = 0
            -> <<1, ns[2], id[4], id[3]>>
      [] k = 0 /\ (ns[1] # 0 \/ id[1] # 0 \/ id[2] # 0) -> <<2>> \o Rev(ns) \o Rev(id)
      [] k = 3 -> <<3>> \o Rev(ns) \o EncStr(id)
      [] k = 4 -> <<4>> \o Rev(ns) \o Enc("Guid", id)
      [] k = 5 -> <<5>> \o Rev(ns) \o EncStr(id)

Enc(t, v) ==
    IF t = "Boolean" THEN v
    ELSE IF t = "NodeId" THEN EncNodeId(v)
    ELSE IF t = "ExpandedNodeId"
         THEN LET n == EncNodeId(v[1])
                  u == v[2] # <<>> /\ v[2] # << <<>> >>
                  s == v[3] # <<>>
              IN  <<n[1] + (IF u THEN 128 ELSE 0) + (IF s THEN 64 ELSE 0)>> \o Tail(n)
                  \o (IF u THEN EncStr(v[2][1]) ELSE <<>>) \o (IF s THEN Rev(v[3][1]) ELSE <<>>)
    ELSE IF t = "Variant"
         THEN IF v = <<>> THEN <<0>>
              ELSE <<v[1] + (IF v[2] = 1 THEN 128 ELSE 0)>>
                   \o Enc(IF v[2] = 1 THEN Arr(VarType[v[1]]) ELSE VarType[v[1]], v[3])
    ELSE IF t = "ExtensionObject"
         THEN EncNodeId(v[1]) \o (IF v[2] = <<>> THEN <<0>> ELSE <<1>> \o EncStr(v[2]))
    ELSE IF t \in Strs THEN EncStr(v)
    ELSE IF t \in DOMAIN Fixed THEN Rev(v)
    ELSE IF t \in DOMAIN Struct THEN EncAll(Struct[t], v)
    ELSE IF t \in DOMAIN Masked
         THEN LET ps == Masked[t]
                  S  == {j \in 1..Len(ps) : v[j] # <<>> /\ ~(t = "LocalizedText" /\ v[j] = << <<>> >>)
                                                        /\ ~(ps[j][2] = "Variant" /\ v[j] = << <<>> >>)}
              IN  <<SumBits(ps, S, 1)>> \o EncMask(ps, v, 1, S)
    ELSE EncLen(Len(v)) \o EncRep(ArrElem[t], v, 1)
-----------------------------------------------------------------------------
(* Equality: two values are the same when all their parts are. As numbers,   *)
(* the two zeroes are the same and what is not a number is not even itself.  *)
(* Of a LocalizedText, an empty part counts as not there.                    *)
NaN(t, v)  == LET e == IF t = "Float" THEN v[1] % 128 = 127 /\ v[2] >= 128 ELSE v[1] % 128 = 127 /\ v[2] >= 240
                  f == IF t = "Float" THEN <<v[2] % 128, v[3], v[4]>> ELSE <<v[2] % 16>> \o SubSeq(v, 3, 8)
              IN  e /\ \E j \in 1..Len(f) : f[j] # 0
Nought(v)  == v[1] \in {0, 128} /\ \A j \in 2..Len(v) : v[j] = 0

RECURSIVE Same(_, _, _)
Same(t, v, w) ==
    IF t \in {"Float", "Double"} THEN ~NaN(t, v) /\ ~NaN(t, w) /\ (v = w \/ (Nought(v) /\ Nought(w)))
    ELSE IF t = "Variant"
         THEN IF v = <<>> \/ w = <<>> THEN v = w
              ELSE v[1] = w[1] /\ v[2] = w[2] /\ Same(IF v[2] = 1 THEN Arr(VarType[v[1]]) ELSE VarType[v[1]], v[3], w[3])
    ELSE IF t \in {"NodeId", "ExpandedNodeId", "ExtensionObject", "Boolean"} \cup Strs \cup DOMAIN Fixed THEN v = w
    ELSE IF t \in DOMAIN Struct THEN \A j \in 1..Len(v) : Same(Struct[t][j], v[j], w[j])
    ELSE IF t \in DOMAIN Masked
         THEN \A j \in 1..Len(v) :
                LET E(x) == x = <<>> \/ (t = "LocalizedText" /\ x = << <<>> >>) IN
                IF E(v[j]) \/ E(w[j]) THEN E(v[j]) /\ E(w[j]) ELSE Same(Masked[t][j][2], v[j][1], w[j][1])
    ELSE Len(v) = Len(w) /\ \A j \in 1..Len(v) : Same(ArrElem[t], v[j], w[j])
=============================================================================
