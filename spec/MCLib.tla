------------------------------- MODULE MCLib --------------------------------
(* One object of the OPC UA library over records instead of bytes: peers     *)
(* that keep or break the rules, links that fail, an owner that closes,      *)
(* sends and starts anew, also while it is told something. Checks what the   *)
(* owner can rely on, and prints replay scripts (Emit).                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kind,     \* "client" | "server" | "chan" | "cchan"
          NOps,     \* steps
          Gen

MaxData == 2
None == 0
Succ(n) == n + 1
Half0 == [r |-> "half"]
Junk0 == [r |-> "junk"]
NoF(r) == [r |-> r, ty |-> "none", d |-> 0]
FrameOf(b) == IF b = <<>> \/ (Len(b) = 1 /\ b[1].r = "half") THEN NoF("more")
              ELSE IF Len(b) = 1 /\ b[1].r = "ok" THEN b[1]
              ELSE IF Len(b) = 2 /\ b[1].r = "half" /\ b[2].r = "ok" THEN b[2]
              ELSE NoF("bad")
Same(d) == d
INSTANCE UaLib WITH ConnTime <- 3, ShakeTime <- 2, LiveTime <- 4, HelloOf <- Same, AckOf <- Same, OpnOf <- Same, OpnrOf <- Same, MsgOf <- Same

VARIABLES o, now, n,
          ph,       \* what the owner knows: "idle" | "busy" (started) | "on" (told connected)
          ok,       \* what it was told made sense
          tk,       \* tokens given so far
          seq,      \* the last number the peer sent; heard: the last number it got, or 0
          heard, hist
vars == <<o, now, n, ph, ok, tk, seq, heard, hist>>
View == <<o, now, n, ph, ok, tk, seq, heard>>

Init == o = O0(Kind) /\ now = 0 /\ n = 0 /\ ph = "idle" /\ ok = TRUE /\ tk = 0 /\ seq = 0 /\ heard = 0 /\ hist = <<>>

F(ty, d) == [r |-> "ok", ty |-> ty, d |-> d]
X == [ch |-> 7, tok |-> 10 + tk, seq |-> 1, rid |-> 2, h |-> 3]

\* the owner is told
Told(p, e) == CASE e = "connected" -> IF p = "busy" THEN "on" ELSE "wrong"
                [] e = "data"      -> IF p = "on" THEN p ELSE "wrong"
                [] e = "request"   -> IF p = "busy" /\ o.up THEN p ELSE "wrong"
                [] e = "error"     -> IF p # "idle" THEN "idle" ELSE "wrong"
                [] e = "closed"    -> IF p = "on" \/ (p = "busy" /\ Kind \in {"chan", "cchan"}) THEN "idle" ELSE "wrong"
RECURSIVE Fold(_, _)
Fold(p, ev) == IF ev = <<>> THEN p ELSE Fold(Told(p, ev[1][1]), Tail(ev))
Numbers(tx) == SelectSeq(tx, LAMBDA f : f.ty \in {"opn", "msg"})

\* r happened; p: what the owner did before; i: how
Do(r, p, i) ==
    /\ n < NOps /\ n' = n + 1
    /\ o' = r.o
    /\ LET q == Fold(p, r.ev)
           closed == r.o.st = "idle" /\ q # "idle" /\ o.re # <<>> /\ r.o.re = <<>>    \* by its own reaction
           s == Numbers(r.tx)
       IN  /\ ph' = IF closed THEN "idle" ELSE q
           /\ ok' = (ok /\ q # "wrong" /\ ~r.wild /\ (heard = 0 \/ s = <<>> \/ s[1].seq = heard + 1))
           /\ heard' = IF r.o.ts = None THEN 0 ELSE IF s = <<>> THEN IF r.o.st = "idle" THEN 0 ELSE heard ELSE s[1].seq
           /\ tk' = IF \E j \in 1..Len(r.tx) : r.tx[j].ty = "opn" THEN tk + 1 ELSE tk
    /\ hist' = IF Gen THEN Append(hist, i) ELSE hist

Start == /\ \/ Kind # "chan" /\ \E f \in {"", "link", "timer", "conn"} :
                 Do(Connect(o, now, f), IF Tries(o, f) THEN "busy" ELSE ph, [op |-> "con", f |-> f])
            \/ Kind \notin {"client", "cchan"} /\ \E f \in {"", "timer"} :
                 Do(Take(o, now, f), IF o.st = "idle" /\ f = "" THEN "busy" ELSE ph, [op |-> "acc", f |-> f])
         /\ UNCHANGED <<now, seq>>
Owner == /\ \/ Do(Close(o), "idle", [op |-> "cls"])
            \/ (o.st = "idle" \/ (o.st = "live" /\ Kind # "cchan")) /\ (Kind = "chan" /\ o.st = "live" => o.up)
               /\ \E m \in IF Kind = "chan" THEN {1, 3} ELSE {1} : Do(Send(o, [j \in 1..m |-> 9], X), ph, [op |-> "snd", n |-> m])
            \/ /\ o.re = <<>> /\ o.st # "idle"
               /\ \E e \in IF Kind = "chan" THEN {"request", "error", "closed"} ELSE IF Kind = "cchan" THEN {"error", "closed"} ELSE {"connected", "data", "error"} :
                  \E a \in IF e \in {"error", "closed"} THEN {"close"} ELSE {"close", "send"} :
                     Do(Nop([o EXCEPT !.re = [on |-> e, do |-> a, d |-> <<9>>]]), ph, [op |-> "re", on |-> e, do |-> a])
         /\ UNCHANGED <<now, seq>>
Link == /\ o.st # "idle"
        /\ \/ o.st = "conn" /\ Do(Linked(o, now), ph, [op |-> "lc"])
           \/ Do(Lost(o), ph, [op |-> "le"])
           \/ o.st \in {"shake", "live"} /\ Do(Lost(o), ph, [op |-> "eof"])
           \/ ~o.sf /\ Do(Nop([o EXCEPT !.sf = TRUE]), ph, [op |-> "sf"])
        /\ UNCHANGED <<now, seq>>
Get(f, i, s) == Do(Data(o, now, <<f>>, X), ph, i) /\ seq' = s /\ UNCHANGED now
M(tok, s) == [r |-> "ok", tok |-> tok, seq |-> s, rid |-> 3, d |-> <<5>>]
Peer == /\ o.st \in {"shake", "live"}
        /\ \/ o.buf = <<>> /\ Get(Half0, [op |-> "half"], seq)
           \/ Get(Junk0, [op |-> "junk"], seq)
           \/ \E ty \in {"hel", "ack"} : \E h \in {"ok", "fail"} : Get(F(ty, h), [op |-> ty, h |-> h], seq)
           \/ /\ Kind = "cchan" /\ o.st = "live"
              /\ \/ Get(F("opn", [r |-> "ok", rid |-> 2, h |-> 3]), [op |-> "opnr", h |-> "ok"], seq)
                 \/ Get(F("opn", [r |-> "fail"]), [op |-> "opnr", h |-> "fail"], seq)
                 \/ Get(F("msg", [r |-> "fail"]), [op |-> "any"], seq)
           \/ /\ Kind = "chan" /\ o.st = "live"
              /\ \/ Get(F("opn", [r |-> "ok", seq |-> 5, rid |-> 2, h |-> 2, life |-> 1]), [op |-> "opn", h |-> "ok"], 5)
                 \/ Get(F("opn", [r |-> "fail"]), [op |-> "opn", h |-> "fail"], seq)
                 \/ \E ty \in {"msg", "clo"} :
                      \/ Get(F(ty, M(o.tok, seq + 1)), [op |-> ty, h |-> "ok"], seq + 1)
                      \/ Get(F(ty, M(o.tok, seq + 2)), [op |-> ty, h |-> "seq"], seq + 2)
                      \/ Get(F(ty, M(o.tok, seq)), [op |-> ty, h |-> "old"], seq)
                      \/ Get(F(ty, M(o.tok - 1, seq + 1)), [op |-> ty, h |-> "tok"], seq + 1)
                      \/ Get(F(ty, [r |-> "fail"]), [op |-> ty, h |-> "fail"], seq)
Pass == \E t \in {1, 4} : now < 8 /\ Do(Tick(o, now + t), ph, [op |-> "tick", n |-> t]) /\ now' = now + t /\ UNCHANGED seq
Next == Start \/ Owner \/ Link \/ Peer \/ Pass
Spec == Init /\ [][Next]_vars
Emit == PrintT("S " \o ToJson(hist'))

-----------------------------------------------------------------------------
\* everything the owner is told makes sense: connected once, data only when connected, one report of the end
Sense == ok
\* and it knows how things stand
Knows == (ph = "idle") = (o.st = "idle") /\ ((ph = "on") = (o.st = "live") \/ Kind \in {"chan", "cchan"})
\* nothing is kept when idle; whatever was started ends
Clean == o.st = "idle" => o.dl = 0 /\ o.buf = <<>> /\ ~o.up
Bound == o.st # "idle" => o.dl > now /\ o.dl <= now + 4
\* a channel is open only over a live connection
Over  == o.up => o.st = "live"
=============================================================================
