------------------------------- MODULE UaLib --------------------------------
(* The OPC UA protocol library: connection objects and the server's secure   *)
(* channel object, as the one who owns them sees them. An object is of kind  *)
(*   client   connects, sends Hello, waits for the Acknowledge               *)
(*   server   is given a link and waits for the Hello, or connects, sends a  *)
(*            ReverseHello and then waits for the Hello                      *)
(*   chan     a secure channel over a server connection                      *)
(*   cchan    a secure channel over a client connection: asks for a channel  *)
(*            and waits for the answer                                       *)
(* What a message says is taken from it by the operators below, so that the  *)
(* same functions describe the objects over bytes (TraceLib) and over        *)
(* records (MCLib).                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS ConnTime, ShakeTime, LiveTime,
          MaxData,        \* the longest message a channel can send
          None,           \* no token, no channel, no number
          Succ(_),        \* of a sequence number
          FrameOf(_),     \* received bytes -> [r |-> "more" | "bad" | "wild" | "ok", ty, d]
          HelloOf(_), AckOf(_),   \* "ok" | "fail" | "wild"
          OpnOf(_),       \* -> [r, seq, rid, h, life]
          OpnrOf(_),      \* the answer to it -> [r, rid, h]
          MsgOf(_)        \* -> [r, tok, seq, rid, d]

\* st  "idle" | "conn" (link being established) | "shake" (handshake) | "live"
\* dl  when it is given up
\* re  what the owner will do when told something: [on, do, d], or <<>>
\* up  (chan) the channel is open: under ch, tok; rs, ts: the last sequence numbers; rid: the last request
\*     (cchan) it was answered; rid, ch: number and handle of the request
O0(kind) == [kind |-> kind, st |-> "idle", buf |-> <<>>, dl |-> 0, sf |-> FALSE, re |-> <<>>,
             up |-> FALSE, ch |-> None, tok |-> None, rs |-> None, ts |-> None, rid |-> None]

Out(o, ev, tx) == [o |-> o, ev |-> ev, tx |-> tx, wild |-> FALSE]
Nop(o)   == Out(o, <<>>, <<>>)
WildOut(o) == [o |-> o, ev |-> <<>>, tx |-> <<>>, wild |-> TRUE]

Free(o) == [O0(o.kind) EXCEPT !.re = o.re, !.ts = o.ts]

\* the owner sends d on the object
Send(o, d, x) ==
    IF o.kind = "cchan" THEN IF o.st = "idle" THEN Nop(o) ELSE WildOut(o)        \* not implemented
    ELSE IF o.kind # "chan"
    THEN CASE o.st = "idle" -> Nop(o)
           [] o.st = "conn" -> WildOut(o)
           [] OTHER -> IF o.sf THEN Nop([o EXCEPT !.sf = FALSE]) ELSE Out(o, <<>>, <<[ty |-> "raw", d |-> d]>>)
    ELSE IF o.st = "idle" THEN Nop([o EXCEPT !.ts = None])
    ELSE IF ~o.up THEN WildOut(o)
    ELSE IF Len(d) > MaxData THEN Nop(o)
    ELSE IF o.sf THEN Nop([o EXCEPT !.sf = FALSE, !.ts = None])
    ELSE LET s == IF o.ts = None THEN x.seq ELSE Succ(o.ts) IN
         Out([o EXCEPT !.ts = s], <<>>, <<[ty |-> "msg", ch |-> o.ch, tok |-> o.tok, seq |-> s, rid |-> o.rid, d |-> d]>>)

Hit(o, e) == o.re # <<>> /\ o.re.on = e
\* the owner is told e, and the object goes on
Tell(o, e, d, tx, x) ==
    LET o1 == [o EXCEPT !.re = <<>>]
        r  == CASE ~Hit(o, e) -> Nop(o)
                [] o.re.do = "close" -> Nop(Free(o1))
                [] o.re.do = "send"  -> Send(o1, o.re.d, x)
    IN  [r EXCEPT !.ev = << <<e, d>> >>, !.tx = tx \o @]

\* the object comes to its end and the owner is told so, once
End(o, e) ==
    IF Hit(o, e) /\ o.re.do = "send" THEN WildOut(o)
    ELSE Out(Free(IF Hit(o, e) THEN [o EXCEPT !.re = <<>>] ELSE o), << <<e, <<>> >> >>, <<>>)

-----------------------------------------------------------------------------
(* starting and closing. f: "" or what is not to be had: "link", "timer", or *)
(* "conn": the link refuses to connect                                       *)
Connect(o, now, f) ==
    IF o.st # "idle" \/ f \in {"link", "timer"} THEN Nop(o)
    ELSE IF f = "conn" THEN End(o, "error")
    ELSE Nop([o EXCEPT !.st = "conn", !.dl = now + ConnTime])
Tries(o, f) == o.st = "idle" /\ f \notin {"link", "timer"}

Take(o, now, f) ==
    IF o.st # "idle" \/ f = "timer" THEN Nop(o)
    ELSE Nop([o EXCEPT !.st = "shake", !.dl = now + ShakeTime])

Close(o) == Nop(Free(o))

\* the link is there
Linked(o, now) ==
    IF o.sf THEN End(o, "error")
    ELSE Out([o EXCEPT !.st = "shake", !.dl = now + ShakeTime], <<>>, <<[ty |-> IF o.kind \in {"client", "cchan"} THEN "hel" ELSE "rhe"]>>)

Live(o, now, tx, x) ==
    LET o1 == [o EXCEPT !.st = "live", !.buf = <<>>, !.dl = now + LiveTime] IN
    IF o.kind = "chan" THEN Out(o1, <<>>, tx)
    ELSE IF o.kind = "cchan"
    THEN IF o.sf THEN End(o, "error")
         ELSE Out([o1 EXCEPT !.rid = x.rid, !.ch = x.h], <<>>, <<[ty |-> "opnq", rid |-> x.rid, h |-> x.h]>>)
    ELSE Tell(o1, "connected", <<>>, tx, x)

Shake(o, now, f, x) ==
    LET h == IF o.kind \in {"client", "cchan"} THEN IF f.ty = "ack" THEN AckOf(f.d) ELSE "fail"
             ELSE IF f.ty = "hel" THEN HelloOf(f.d) ELSE "fail"
    IN  CASE h = "wild" -> WildOut(o)
          [] h = "fail" -> End(o, "error")
          [] h = "ok"   -> IF o.kind \in {"client", "cchan"} THEN Live(o, now, <<>>, x)
                           ELSE IF o.sf THEN End(o, "error")
                           ELSE Live(o, now, <<[ty |-> "ack"]>>, x)

Open(o, q, x) ==
    LET c == IF o.up THEN o.ch ELSE x.ch
        s == IF o.up /\ o.ts # None THEN Succ(o.ts) ELSE x.seq
    IN  IF q.r = "wild" THEN WildOut(o)
        ELSE IF q.r = "fail" \/ o.sf THEN End(o, "error")
        ELSE Out([o EXCEPT !.up = TRUE, !.ch = c, !.tok = x.tok, !.rs = q.seq, !.rid = q.rid, !.ts = s], <<>>,
                 <<[ty |-> "opn", ch |-> c, tok |-> x.tok, seq |-> s, rid |-> q.rid, h |-> q.h, life |-> q.life]>>)

Secured(o, ty, q, x) ==
    IF q.r # "ok" \/ (q.r = "ok" /\ (q.tok # o.tok \/ q.seq # Succ(o.rs))) THEN End(o, "error")
    ELSE IF ty = "clo" THEN End(o, "closed")
    ELSE Tell([o EXCEPT !.rs = q.seq, !.rid = q.rid], "request", q.d, <<>>, x)

Channel(o, f, x) ==
    CASE f.ty = "opn" -> Open(o, OpnOf(f.d), x)
      [] f.ty \in {"clo", "msg"} /\ o.up -> Secured(o, f.ty, MsgOf(f.d), x)
      [] OTHER -> Nop(o)                  \* nothing that could be meant

\* what is answered to another request is left open
Answer(o, f) ==
    LET q == OpnrOf(f.d) IN
    IF o.up THEN Nop(o)                   \* nothing was asked
    ELSE IF f.ty # "opn" THEN End(o, "error")
    ELSE IF q.r = "fail" THEN End(o, "error")
    ELSE IF q.r = "wild" \/ (q.r = "ok" /\ (q.rid # o.rid \/ q.h # o.ch)) THEN WildOut(o)
    ELSE Nop([o EXCEPT !.up = TRUE])

Data(o, now, d, x) ==
    LET b == o.buf \o d
        f == FrameOf(b)
        o1 == [o EXCEPT !.buf = <<>>]
    IN  CASE f.r = "wild" -> WildOut(o)
          [] f.r = "more" -> Nop([o EXCEPT !.buf = b])
          [] f.r = "bad"  -> End(o, "error")
          [] f.r = "ok"   -> IF o.st = "shake" THEN Shake(o1, now, f, x)
                             ELSE IF o.kind = "chan" THEN Channel(o1, f, x)
                             ELSE IF o.kind = "cchan" THEN Answer(o1, f)
                             ELSE Tell(o1, "data", b, <<>>, x)

Lost(o) == End(o, "error")

Tick(o, now) ==
    IF o.st = "idle" \/ o.dl > now THEN Nop(o)
    ELSE End(o, IF o.st = "live" THEN "closed" ELSE "error")
=============================================================================
