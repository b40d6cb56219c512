----------------------------- MODULE ModbusWire -----------------------------
(* The Modbus/TCP application data unit, as sequences of bytes (0..255).     *)
EXTENDS Integers, Sequences

MaxAdu   == 260      \* an ADU on the wire is shorter than this
MaxPdu   == 253
MaxUnit  == 247
ExcFunc  == 143      \* 0x8F, function code of an exception response
HdrLen   == 6        \* transaction, protocol, length

ReadBits == {1, 2}
ReadRegs == {3, 4}
Singles  == {5, 6}
Multi    == 16
Funcs    == ReadBits \cup ReadRegs \cup Singles \cup {Multi}

BE(x)     == << (x \div 256) % 256, x % 256 >>
U16(s, i) == s[i] * 256 + s[i + 1]
\* registers are given low byte first to the user and travel high byte first
Swap(d)   == [i \in 1..Len(d) |-> IF i % 2 = 1 THEN d[i + 1] ELSE d[i - 1]]
Drop(s, n) == SubSeq(s, n + 1, Len(s))

Hdr(tid, len) == BE(tid) \o <<0, 0>> \o BE(len)

ItemsFit(f, n) == IF f \in ReadBits THEN 2 + ((n + 7) \div 8) <= MaxPdu
                                    ELSE 2 + 2 * n <= MaxPdu

\* a coil is forced with 0x0000 or 0xFF00 (low byte first here)
CoilValue(d) == d[1] = 0 /\ d[2] \in {0, 255}

-----------------------------------------------------------------------------
(* Request of a client: [th, tl, f, a, si, ni, d]; th/tl are the upper and   *)
(* lower half of the transaction id.                                         *)
RequestOk(r) ==
    /\ r.a <= MaxUnit
    /\ r.f \in Funcs
    /\ r.f \in ReadBits \cup ReadRegs => ItemsFit(r.f, r.ni)
    /\ r.f \in Singles => /\ r.ni = 0
                          /\ Len(r.d) = 2
                          /\ r.f = 5 => CoilValue(r.d)
    /\ r.f = Multi => /\ Len(r.d) = 2 * r.ni
                      /\ 13 + Len(r.d) <= MaxAdu

EncodeRequest(r) ==
    IF r.f \in ReadBits \cup ReadRegs
    THEN Hdr(r.tl, 6) \o <<r.a, r.f>> \o BE(r.si) \o BE(r.ni)
    ELSE IF r.f \in Singles
    THEN Hdr(r.tl, 6) \o <<r.a, r.f>> \o BE(r.si) \o Swap(r.d)
    ELSE Hdr(r.tl, 7 + Len(r.d)) \o <<r.a, r.f>> \o BE(r.si) \o BE(r.ni)
           \o <<Len(r.d)>> \o Swap(r.d)

-----------------------------------------------------------------------------
(* Framing: what a receive buffer holds.                                     *)
Framing(buf) ==
    IF Len(buf) < HdrLen THEN "partial"
    ELSE IF U16(buf, 5) + HdrLen >= MaxAdu THEN "toolong"
    ELSE IF Len(buf) < U16(buf, 5) + HdrLen THEN "partial"
    ELSE IF Len(buf) > U16(buf, 5) + HdrLen THEN "excess"
    ELSE "whole"

(* Response of a device to request r: "bad", an exception code or data.      *)
DecodeResponse(buf, r) ==
    LET len == U16(buf, 5)
        bad == [k |-> "bad", e |-> 0, d |-> <<>>]
    IN  IF len < 2 \/ U16(buf, 3) # 0 THEN bad
        ELSE LET f == buf[8] IN
        IF f = ExcFunc /\ len # 3 THEN bad
        ELSE IF f \in ReadRegs /\ (len < 3 \/ len # buf[9] + 3 \/ buf[9] % 2 # 0) THEN bad
        ELSE IF f \in Singles \cup {Multi} /\ len # 6 THEN bad
        ELSE IF f \notin {ExcFunc, Multi} \cup ReadRegs \cup Singles THEN bad
        ELSE IF r.th # 0 \/ r.tl # U16(buf, 1) \/ r.a # buf[7] THEN bad
        ELSE IF f = ExcFunc THEN [k |-> "exc", e |-> buf[9], d |-> <<>>]
        ELSE IF f # r.f THEN bad
        ELSE [k |-> "ok", e |-> 0,
              d |-> IF f \in ReadRegs THEN Swap(Drop(buf, 9))
                    ELSE IF f \in Singles THEN Swap(Drop(buf, 10))
                    ELSE <<>>]

-----------------------------------------------------------------------------
(* Request a server receives in a whole ADU.                                 *)
DecodeRequest(buf) ==
    LET len == U16(buf, 5)
        bad == [ok |-> FALSE, tid |-> 0, f |-> 0, a |-> 0, si |-> 0, ni |-> 0, d |-> <<>>]
    IN  IF len < 6 \/ U16(buf, 3) # 0 \/ buf[7] > MaxUnit THEN bad
        ELSE LET f == buf[8]
                 base == [ok |-> TRUE, tid |-> U16(buf, 1), f |-> f, a |-> buf[7],
                          si |-> U16(buf, 9), ni |-> 0, d |-> <<>>]
             IN
        IF f \in ReadBits \cup ReadRegs
        THEN IF len = 6 /\ ItemsFit(f, U16(buf, 11)) THEN [base EXCEPT !.ni = U16(buf, 11)] ELSE bad
        ELSE IF f \in Singles
        THEN IF len = 6 THEN [base EXCEPT !.d = Swap(Drop(buf, 10))] ELSE bad
        ELSE IF f = Multi
        THEN IF len >= 7 /\ buf[13] = 2 * U16(buf, 11) /\ len = 7 + buf[13]
             THEN [base EXCEPT !.ni = U16(buf, 11), !.d = Swap(Drop(buf, 13))] ELSE bad
        ELSE bad

(* Reply of a server to request q given the answer e (exception code, 0 if   *)
(* none) and data d; <<>> when there is nothing that can be said.            *)
EncodeReply(q, e, d) ==
    IF e # 0 THEN Hdr(q.tid, 3) \o <<q.a, ExcFunc, e>>
    ELSE IF q.f \in ReadRegs
    THEN IF Len(d) % 2 = 0 /\ 9 + Len(d) < MaxAdu
         THEN Hdr(q.tid, 3 + Len(d)) \o <<q.a, q.f, Len(d)>> \o Swap(d) ELSE <<>>
    ELSE IF q.f \in Singles
    THEN IF Len(d) = 2 /\ (q.f = 5 => CoilValue(d))
         THEN Hdr(q.tid, 6) \o <<q.a, q.f>> \o BE(q.si) \o Swap(d) ELSE <<>>
    ELSE IF q.f = Multi
    THEN Hdr(q.tid, 6) \o <<q.a, q.f>> \o BE(q.si) \o BE(q.ni)
    ELSE <<>>
=============================================================================
