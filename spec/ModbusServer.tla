---------------------------- MODULE ModbusServer ----------------------------
(* One connection of a Modbus server (a session).                            *)
(*   sv   server id           st   "connected" | "wait"                      *)
(*   t    ticks until the timer fires                                        *)
(*   rx   bytes received      q    the request forwarded (ok = FALSE: none)  *)
(*   w    bytes in the buffer while waiting                                  *)
(*   sid  session id the server uses for this connection, -1: not yet seen   *)
(*   sf   the next send fails                                                *)
(* Results: [c, open, fwd (sequence of requests), tx, wild]; wild marks what *)
(* the properties leave open.                                                *)
EXTENDS ModbusWire

CONSTANT MaxSessions

InactiveTime == 3000
AnswerTime   == 500

NoReq == [ok |-> FALSE, tid |-> 0, f |-> 0, a |-> 0, si |-> 0, ni |-> 0, d |-> <<>>]

NewConn(sv) == [sv |-> sv, st |-> "connected", t |-> InactiveTime, rx |-> <<>>, q |-> NoReq,
                w |-> 0, sid |-> -1, sf |-> FALSE]

SRes(c) == [c |-> c, open |-> TRUE, fwd |-> <<>>, tx |-> <<>>, wild |-> FALSE]
Closed(c) == [SRes(c) EXCEPT !.open = FALSE]

ToConnected(c) == [c EXCEPT !.st = "connected", !.t = InactiveTime, !.rx = <<>>, !.w = 0, !.q = NoReq]
ToWait(c, q, n) == [c EXCEPT !.st = "wait", !.t = AnswerTime, !.rx = <<>>, !.w = n, !.q = q]

SData(c, d) ==
    IF c.st = "wait"
    THEN \* a client has to wait for the answer; what it sends meanwhile is dropped
         [SRes([c EXCEPT !.w = c.w + Len(d)]) EXCEPT !.wild = c.w + Len(d) > MaxAdu]
    ELSE LET buf == c.rx \o d
             fr  == Framing(buf)
         IN  IF fr = "partial" THEN SRes([c EXCEPT !.rx = buf])
             ELSE IF fr = "toolong" THEN Closed(c)
             ELSE LET q == IF fr = "whole" THEN DecodeRequest(buf) ELSE NoReq
                  IN  [SRes(ToWait(c, q, Len(buf))) EXCEPT !.fwd = IF q.ok THEN <<q>> ELSE <<>>]

SLinkError(c) == Closed(c)

\* the answer of the application: tid, exception code e, status s (0 success), data
Answer(c, tid, e, s, d) ==
    IF c.st # "wait" THEN SRes(c)
    ELSE IF ~c.q.ok THEN [SRes(c) EXCEPT !.wild = TRUE]
    ELSE IF tid # c.q.tid THEN SRes(c)
    ELSE IF s # 0 \/ Len(d) > MaxAdu THEN SRes(ToConnected(c))
    ELSE LET b == EncodeReply(c.q, e, d) IN
         IF b = <<>> THEN SRes(ToConnected(c))
         ELSE IF c.sf THEN Closed(c)
         ELSE [SRes(ToConnected(c)) EXCEPT !.tx = b]

SFire(c) == IF c.st = "wait" THEN SRes(ToConnected(c)) ELSE Closed(c)

RECURSIVE SAdvance(_, _)
SAdvance(c, n) ==
    IF c.t > n THEN SRes([c EXCEPT !.t = c.t - n])
    ELSE LET a == SFire(c) IN
         IF a.open THEN SAdvance(a.c, n - c.t) ELSE a
=============================================================================
