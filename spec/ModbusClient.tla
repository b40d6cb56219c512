---------------------------- MODULE ModbusClient ----------------------------
(* One Modbus client: a queue of requests, one link, one timer.              *)
(*                                                                           *)
(* The state of a client is a record                                         *)
(*   id   its client id             p    peer address it is configured with  *)
(*   st   "connect" | "backoff" | "connected" | "send" | "receive"           *)
(*   t    ticks (10 ms) until its timer fires, 0 when it is not running      *)
(*   q    requests accepted and not yet answered, oldest first               *)
(*   rx   bytes of the response received so far                              *)
(*   lk   link: 0 closed, 1 connecting, 2 up                                 *)
(*   sf   the next send on the link fails   cf   the next connect fails      *)
(* Every input is an operator from a client to a result                      *)
(*   [cl |-> client, rsp |-> answers, tx |-> bytes sent, att |-> connects]   *)
EXTENDS ModbusWire

CONSTANT QCap                      \* requests a client can hold

ConnectTime == 300
BackoffTime == 50
SendTime    == 1
ReceiveTime == 500

Res(cl) == [cl |-> cl, rsp |-> <<>>, tx |-> <<>>, att |-> 0]

\* answers; s = 0 success, 1 error
ErrRsp(c, r)      == [c |-> c, th |-> r.th, tl |-> r.tl, e |-> 0, s |-> 1, d |-> <<>>]
ExcRsp(c, r, e)   == [c |-> c, th |-> r.th, tl |-> r.tl, e |-> e, s |-> 0, d |-> <<>>]
OkRsp(c, r, d)    == [c |-> c, th |-> r.th, tl |-> r.tl, e |-> 0, s |-> 0, d |-> d]
ErrAll(cl)        == [i \in 1..Len(cl.q) |-> ErrRsp(cl.id, cl.q[i])]

NewClient(id, p) ==
    [id |-> id, p |-> p, st |-> "connect", t |-> 0, q |-> <<>>, rx |-> <<>>,
     lk |-> 0, sf |-> FALSE, cf |-> FALSE]

ToConnect(cl) ==
    LET c == [cl EXCEPT !.st = "connect", !.t = ConnectTime,
                        !.lk = IF cl.cf THEN 0 ELSE 1, !.cf = FALSE, !.sf = FALSE]
    IN  [Res(c) EXCEPT !.att = 1]

ToBackoff(cl) ==
    [cl EXCEPT !.st = "backoff", !.t = BackoffTime, !.lk = 0, !.sf = FALSE, !.rx = <<>>]

\* the link is lost: every request is answered with an error
LinkLost(cl) ==
    [Res(ToBackoff([cl EXCEPT !.q = <<>>])) EXCEPT !.rsp = ErrAll(cl)]

ToSend(cl)    == [cl EXCEPT !.st = "send", !.t = SendTime, !.rx = <<>>]
Finish(cl, a) == [Res(ToSend([cl EXCEPT !.q = Tail(cl.q)])) EXCEPT !.rsp = <<a>>]

(* A request is handed to the client. *)
Request(cl, r) ==
    IF Len(cl.q) >= QCap \/ Len(r.d) > MaxAdu
    THEN [Res(cl) EXCEPT !.rsp = <<ErrRsp(cl.id, r)>>]
    ELSE IF cl.st \in {"connect", "backoff"}
    THEN [Res(cl) EXCEPT !.rsp = <<ErrRsp(cl.id, r)>>]
    ELSE LET c == [cl EXCEPT !.q = Append(cl.q, r)]
         IN  Res(IF cl.st = "connected" THEN ToSend(c) ELSE c)

(* The link is established. *)
Connected(cl) == Res([cl EXCEPT !.st = "connected", !.t = 0, !.lk = 2])

(* The link reports an error (it is closed then), or end of stream. *)
LinkError(cl) == IF cl.st = "connect" THEN Res(ToBackoff(cl)) ELSE LinkLost(cl)

(* Bytes arrive on the link. *)
Data(cl, d) ==
    IF cl.st # "receive" THEN Res(cl)              \* nothing outstanding: discarded
    ELSE LET buf == cl.rx \o d
             r   == Head(cl.q)
             fr  == Framing(buf)
         IN  IF fr = "partial" THEN Res([cl EXCEPT !.rx = buf])
             ELSE IF fr # "whole" THEN Finish(cl, ErrRsp(cl.id, r))
             ELSE LET a == DecodeResponse(buf, r) IN
                  Finish(cl, IF a.k = "bad" THEN ErrRsp(cl.id, r)
                             ELSE IF a.k = "exc" THEN ExcRsp(cl.id, r, a.e)
                             ELSE OkRsp(cl.id, r, a.d))

(* The timer fires. *)
Fire(cl0) ==
    LET cl == [cl0 EXCEPT !.t = 0] IN
    CASE cl.st = "connect" -> Res(ToBackoff(cl))
      [] cl.st = "backoff" -> ToConnect(cl)
      [] cl.st = "receive" -> Finish(cl, ErrRsp(cl.id, Head(cl.q)))
      [] cl.st = "send" ->
           IF cl.q = <<>> THEN Res([cl EXCEPT !.st = "connected"])
           ELSE LET r == Head(cl.q) IN
                IF ~RequestOk(r)
                THEN [Res([cl EXCEPT !.q = Tail(cl.q), !.t = SendTime])
                        EXCEPT !.rsp = <<ErrRsp(cl.id, r)>>]
                ELSE IF cl.sf THEN LinkLost(cl)
                ELSE [Res([cl EXCEPT !.st = "receive", !.t = ReceiveTime, !.rx = <<>>])
                        EXCEPT !.tx = EncodeRequest(r)]
      [] OTHER -> Res(cl)

Join(a, b) == [cl |-> b.cl, rsp |-> a.rsp \o b.rsp, tx |-> a.tx \o b.tx, att |-> a.att + b.att]

(* n ticks pass. *)
RECURSIVE Advance(_, _)
Advance(cl, n) ==
    IF cl.t = 0 THEN Res(cl)
    ELSE IF cl.t > n THEN Res([cl EXCEPT !.t = cl.t - n])
    ELSE LET a == Fire(cl) IN Join(a, Advance(a.cl, n - cl.t))
=============================================================================
