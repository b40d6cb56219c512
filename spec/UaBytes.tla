------------------------------- MODULE UaBytes ------------------------------
(* The OPC UA server over bytes: what its messages say (see UaBinary), and   *)
(* what a client connected to it may see.                                    *)
EXTENDS UaBinary

Ascii == [c \in {"A", "C", "E", "F", "G", "H", "K", "L", "M", "N", "O", "P", "S"} |->
            CASE c = "A" -> 65 [] c = "C" -> 67 [] c = "E" -> 69 [] c = "F" -> 70 [] c = "G" -> 71 [] c = "H" -> 72 [] c = "K" -> 75
              [] c = "L" -> 76 [] c = "M" -> 77 [] c = "N" -> 78 [] c = "O" -> 79 [] c = "P" -> 80 [] c = "S" -> 83]
FrameType == [hel |-> <<72, 69, 76>>, ack |-> <<65, 67, 75>>, opn |-> <<79, 80, 78>>, clo |-> <<67, 76, 79>>, msg |-> <<77, 83, 71>>]
Drop(b, n) == SubSeq(b, n + 1, Len(b))
LE32(b, p) == <<b[p + 4], b[p + 3], b[p + 2], b[p + 1]>>          \* most significant first
Chunk(x)   == IF x \in {65, 67, 70} THEN x ELSE 0

MaxFrame == 4096      \* frames longer than this are refused
Room     == 3900      \* frames above this size are left open (they do not fit all buffers)

NoFrame(r) == [r |-> r, ty |-> "none", ck |-> 0, ch |-> <<>>, d |-> <<>>]
BFrame(b) ==
    IF Len(b) < 8 THEN NoFrame("more")
    ELSE IF b[7] # 0 \/ b[8] # 0 \/ b[5] + 256 * b[6] > MaxFrame THEN NoFrame("bad")
    ELSE LET s == b[5] + 256 * b[6] IN
         IF s > Room \/ Len(b) > Room THEN NoFrame("wild")
         ELSE IF Len(b) < s THEN NoFrame("more")
         ELSE IF Len(b) # s THEN NoFrame("bad")
         ELSE LET T == {t \in DOMAIN FrameType : FrameType[t] = SubSeq(b, 1, 3)}
                  t == IF T = {} THEN "none" ELSE CHOOSE x \in T : TRUE
              IN  IF t = "hel" THEN [r |-> "ok", ty |-> t, ck |-> b[4], ch |-> <<>>, d |-> Drop(b, 8)]
                  ELSE IF s < 12 \/ t \notin {"opn", "clo", "msg"} THEN NoFrame("bad")
                  ELSE [r |-> "ok", ty |-> t, ck |-> Chunk(b[4]), ch |-> LE32(b, 8), d |-> Drop(b, 12)]

Whole(x, b) == IF x.r = "ok" /\ x.p # Len(b) THEN Wild ELSE x     \* what follows the message is left open

BHello(d) == Whole(Dec("HelloMessage", d, 0), d).r

Frame(f) ==
    IF f.ty = "ack" THEN <<65, 67, 75, 70, 28, 0, 0, 0>> \o Enc("AcknowledgeMessage", <<Z4, <<0, 1, 0, 0>>, <<0, 1, 0, 0>>, <<19, 136, 0, 0>>, <<0, 0, 19, 136>> >>)
    ELSE FrameType[f.ty] \o <<f.ck>> \o EncLen(Len(f.d) + 12) \o Rev(f.ch) \o f.d

-----------------------------------------------------------------------------
(* secure channel *)
PolicyNone == <<104, 116, 116, 112, 58, 47, 47, 111, 112, 99, 102, 111, 117, 110, 100, 97, 116, 105, 111, 110, 46, 111, 114, 103,
                47, 85, 65, 47, 83, 101, 99, 117, 114, 105, 116, 121, 80, 111, 108, 105, 99, 121, 35, 78, 111, 110, 101>>

BadOpn(r) == [r |-> r, seq |-> Z4, rid |-> Z4, h |-> Z4, life |-> Z4]
BOpn(d) ==
    LET x == Whole(DecAll(<<"SecurityHeader", "SequenceHeader", "OpenSecureChannelReqCont">>, d, 0, <<>>), d) IN
    IF x.r # "ok" THEN BadOpn(x.r)
    ELSE IF x.v[1] # <<PolicyNone, <<>>, <<>> >> \/ x.v[3][1] # TypeIdOf("OpenSecureChannelReq") THEN BadOpn("wild")
    ELSE [r |-> "ok", seq |-> x.v[2][1], rid |-> x.v[2][2], h |-> x.v[3][2][1][3], life |-> x.v[3][2][6]]

BMsg(d) ==
    LET x == DecAll(<<"TokenHeader", "SequenceHeader">>, d, 0, <<>>) IN
    IF x.r # "ok" THEN [r |-> "fail", tok |-> Z4, seq |-> Z4, rid |-> Z4, d |-> <<>>]
    ELSE [r |-> "ok", tok |-> x.v[1][1], seq |-> x.v[2][1], rid |-> x.v[2][2], d |-> Drop(d, x.p)]

BClo(d) ==
    LET m == BMsg(d) IN
    IF m.r # "ok" THEN [r |-> "short", tok |-> Z4, seq |-> Z4, rid |-> Z4, h |-> Z4]
    ELSE LET x == Whole(Dec("CloseSecureChannelReqCont", m.d, 0), m.d)
             ok == x.r = "ok" /\ x.v[1] = TypeIdOf("CloseSecureChannelReq")
         IN  [r |-> IF x.r = "ok" /\ ~ok THEN "wild" ELSE x.r, tok |-> m.tok, seq |-> m.seq, rid |-> m.rid,
              h |-> IF ok THEN x.v[2][1][3] ELSE Z4]

-----------------------------------------------------------------------------
(* services *)
Service == [x \in {428, 461, 467, 473, 631} |->
              CASE x = 428 -> "GetEndpointsReq" [] x = 461 -> "CreateSessionReq" [] x = 467 -> "ActivateSessionReq"
                [] x = 473 -> "CloseSessionReq" [] x = 631 -> "ReadReq"]
BadSvc(r) == [r |-> r, svc |-> 0, h |-> Z4, auth |-> <<>>, x |-> <<>>]
BSvc(d) ==
    LET n == Dec("ExpandedNodeId", d, 0) IN
    IF n.r # "ok" THEN BadSvc(n.r)
    ELSE IF n.v[1][1] # 0 THEN BadSvc("fail")
    ELSE IF n.v[1][2] # <<0, 0>> \/ n.v[2] # <<>> \/ n.v[3] # <<>> THEN BadSvc("wild")
    ELSE LET i == n.v[1][3]
             svc == IF i[1] = 0 /\ i[2] = 0 THEN i[3] * 256 + i[4] ELSE 0
         IN  IF svc \notin DOMAIN Service THEN BadSvc("fail")
             ELSE LET b == Whole(Dec(Service[svc], d, n.p), d) IN
                  IF b.r # "ok" THEN BadSvc(b.r)
                  ELSE LET a == b.v[1][1] IN
                       IF svc \in {467, 473} /\ a[1] = 0 /\ a[2] # <<0, 0>> THEN BadSvc("wild")
                       ELSE [r |-> "ok", svc |-> svc, h |-> b.v[1][3], auth |-> IF a[1] = 0 THEN a[3] ELSE <<"none">>,
                             x |-> IF svc = 461 THEN <<b.v[8], b.v[9]>> ELSE <<>>]

-----------------------------------------------------------------------------
(* what the server says *)
NullNode == <<0, <<0, 0>>, Z4>>
EmptyDiag == <<<<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>> >>
\* the handle, if this is the header of a successful response without further information
GoodHdr(v) == v[3] = Z4 /\ v[4] = EmptyDiag /\ v[5] = <<>> /\ v[6] = <<NullNode, <<>> >>

Url == <<111, 112, 99, 46, 116, 99, 112, 58, 47, 47, 108, 111, 99, 97, 108, 104, 111, 115, 116, 58, 52, 51, 54, 57>>  \* opc.tcp://localhost:4369
AppUri == <<117, 114, 110, 58, 121, 111, 117, 107, 111, 122, 108, 111, 118, 45, 86, 105, 118, 111, 66, 111, 111, 107, 45, 65, 83, 85, 83, 76, 97,
            112, 116, 111, 112, 45, 88, 53, 49, 51, 69, 65, 78, 45, 75, 53, 49, 51, 69, 65, 58, 117, 115, 99, 97, 100, 97>>
ProdUri == <<117, 114, 110, 58, 117, 115, 99, 97, 100, 97>>
Endpoint == <<Url, <<AppUri, ProdUri, <<<<>>, <<>> >>, Z4, <<>>, <<>>, <<>> >>, <<>>, <<0, 0, 0, 1>>, PolicyNone, <<>>, <<>>, <<0>> >>

\* [svc, h, x] of the bytes of an answer; svc 0: not an answer the server may give
NoAnswer == [svc |-> 0, h |-> Z4, x |-> <<>>]
BRsp(d) ==
    LET n == Dec("ExpandedNodeId", d, 0)
        M == {m \in {"GetEndpointsRsp", "CreateSessionRsp", "ActivateSessionRsp", "CloseSessionRsp", "ReadRsp"} : n.r = "ok" /\ n.v = TypeIdOf(m)}
    IN  IF M = {} THEN NoAnswer
        ELSE LET m == CHOOSE x \in M : TRUE
                 y == Whole(Dec(m, d, n.p), d)
                 v == y.v
                 R(x) == [svc |-> Cont[m], h |-> v[1][2], x |-> x]
             IN  IF y.r # "ok" THEN NoAnswer
                 ELSE IF ~GoodHdr(v[1]) THEN NoAnswer
                 ELSE CASE m = "GetEndpointsRsp"  -> IF v[2] = <<Endpoint>> THEN R(<<>>) ELSE NoAnswer
                        [] m = "CreateSessionRsp" ->
                             IF /\ v[2][1] = 0 /\ v[2][2] = <<0, 0>> /\ v[3] = v[2] /\ v[5] = <<>> /\ v[6] = <<>> /\ v[7] = <<Endpoint>>
                                /\ v[8] = <<>> /\ v[9] = <<<<>>, <<>> >>
                             THEN R(<<v[2][3], <<v[4], v[10]>> >>) ELSE NoAnswer
                        [] OTHER -> IF \A j \in 2..Len(v) : v[j] = <<>> THEN R(<<>>) ELSE NoAnswer

BadOpnr == [r |-> "fail", seq |-> Z4, rid |-> Z4, h |-> Z4, tok |-> Z4, life |-> Z4, ch |-> <<>>]
BOpnr(d) ==
    LET x == Whole(DecAll(<<"SecurityHeader", "SequenceHeader", "OpenSecureChannelRspCont">>, d, 0, <<>>), d) IN
    IF x.r # "ok" THEN BadOpnr
    ELSE LET b == x.v[3][2] IN
         IF x.v[1] = <<PolicyNone, <<>>, <<>> >> /\ x.v[3][1] = TypeIdOf("OpenSecureChannelRsp") /\ GoodHdr(b[1]) /\ b[2] = Z4 /\ b[4] = <<>>
         THEN [r |-> "ok", seq |-> x.v[2][1], rid |-> x.v[2][2], h |-> b[1][2], tok |-> b[3][2], life |-> b[3][4], ch |-> b[3][1]]
         ELSE BadOpnr

BadClor == [r |-> "fail", tok |-> Z4, seq |-> Z4, rid |-> Z4, h |-> Z4]
BClor(d) ==
    LET m == BMsg(d) IN
    IF m.r # "ok" THEN BadClor
    ELSE LET x == Whole(Dec("CloseSecureChannelRspCont", m.d, 0), m.d) IN
         IF x.r = "ok" /\ x.v[1] = TypeIdOf("CloseSecureChannelRsp") /\ GoodHdr(x.v[2][1])
         THEN [r |-> "ok", tok |-> m.tok, seq |-> m.seq, rid |-> m.rid, h |-> x.v[2][1][2]]
         ELSE BadClor

\* the times told in an answer, or << <<>> >> if it is none
OpnrTimes(d) ==
    LET x == DecAll(<<"SecurityHeader", "SequenceHeader", "OpenSecureChannelRspCont">>, d, 0, <<>>) IN
    IF x.r # "ok" THEN << <<>> >> ELSE <<x.v[3][2][1][1], x.v[3][2][3][3]>>
ClorTimes(d) ==
    LET m == BMsg(d) x == Dec("CloseSecureChannelRspCont", m.d, 0) IN
    IF m.r # "ok" \/ x.r # "ok" THEN << <<>> >> ELSE <<x.v[2][1][1]>>
RspTimes(d) ==
    LET n == Dec("ExpandedNodeId", d, 0)
        M == {m \in {"GetEndpointsRsp", "CreateSessionRsp", "ActivateSessionRsp", "CloseSessionRsp", "ReadRsp"} : n.r = "ok" /\ n.v = TypeIdOf(m)}
        y == Dec(CHOOSE x \in M : TRUE, d, n.p)
    IN  IF M = {} THEN << <<>> >> ELSE IF y.r # "ok" THEN << <<>> >> ELSE <<y.v[1][1]>>

-----------------------------------------------------------------------------
(* What a client sees on one link, whatever goes on inside:                  *)
(*   hel, ack   it said Hello; it was acknowledged                           *)
(*   ch         <<channel, token, sequence number>> of the channel open now  *)
(*   req        requests not yet answered                                    *)
(*   act        a session was activated over this channel                    *)
E0 == [hel |-> FALSE, ack |-> FALSE, ch |-> <<>>, req |-> <<>>, act |-> FALSE]

\* f: a whole message of the client, as FrameOf gives it
EAsk(e, f) ==
    CASE f.ty = "hel" -> [e EXCEPT !.hel = TRUE]
      [] f.ty = "opn" -> LET q == BOpn(f.d) IN IF q.r = "ok" THEN [e EXCEPT !.req = Append(@, <<449, q.rid, q.h>>)] ELSE e
      [] f.ty = "clo" -> LET q == BClo(f.d) IN IF q.r = "ok" THEN [e EXCEPT !.req = Append(@, <<455, q.rid, q.h>>)] ELSE e
      [] f.ty = "msg" -> LET q == BMsg(f.d)
                             s == BSvc(q.d)
                         IN  IF s.r = "ok" THEN [e EXCEPT !.req = Append(@, <<s.svc + 3, q.rid, s.h>>)] ELSE e

Remove(s, x) == LET j == CHOOSE i \in 1..Len(s) : s[i] = x IN SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))

\* b: what the server sent on the link in one step; [e, ok]
ETell(e, b) ==
    LET f == BFrame(b)
        bad == [e |-> e, ok |-> FALSE]
        Ans(x, e1) == IF \E j \in 1..Len(e.req) : e.req[j] = x THEN [e |-> [e1 EXCEPT !.req = Remove(@, x)], ok |-> TRUE] ELSE bad
    IN  IF SubSeq(b, 1, 3) = FrameType["ack"]
        THEN [e |-> [e EXCEPT !.ack = TRUE], ok |-> e.hel /\ ~e.ack /\ b = Frame([ty |-> "ack"])]
        ELSE IF ~e.ack \/ f.r # "ok" THEN bad
        ELSE IF f.ty = "opn"
        THEN LET q == BOpnr(f.d) IN
             IF q.r = "ok" /\ q.ch = f.ch THEN Ans(<<449, q.rid, q.h>>, [e EXCEPT !.ch = <<f.ch, q.tok, q.seq>>, !.act = FALSE]) ELSE bad
        ELSE IF e.ch = <<>> \/ f.ch # e.ch[1] THEN bad
        ELSE LET q == BMsg(f.d) IN
             IF q.r # "ok" \/ q.tok # e.ch[2] \/ q.seq # Succ32(e.ch[3]) THEN bad
             ELSE IF f.ty = "clo"
             THEN LET c == BClor(f.d) IN IF c.r = "ok" THEN Ans(<<455, c.rid, c.h>>, [e EXCEPT !.ch = <<>>]) ELSE bad
             ELSE IF f.ty = "msg"
             THEN LET s == BRsp(q.d) IN
                  IF s.svc = 0 \/ (s.svc = 634 /\ ~e.act) THEN bad
                  ELSE Ans(<<s.svc, q.rid, s.h>>, [e EXCEPT !.ch[3] = q.seq, !.act = e.act \/ s.svc = 470])
             ELSE bad
=============================================================================
