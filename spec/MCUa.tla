-------------------------------- MODULE MCUa --------------------------------
(* The OPC UA server as a whole, over records instead of bytes: connections, *)
(* channels and sessions, the messages between the components in any order   *)
(* of delivery, clients that keep or break the rules. Checks that the parts  *)
(* together give what is promised, and prints replay scripts (Emit).         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Pool,     \* connections, channels, sessions
          Links,    \* links made, at most
          Reqs,     \* messages each client sends after its Hello, at most
          Sess,     \* sessions created, at most
          Faults,   \* broken messages, lost links, failing sends, silence: at most
          What,     \* what clients send: subset of {"open", "clo", "gep", "create", "activate", "close", "read"}
          Atomic,   \* messages between the components are delivered before clients go on
          Gen

NoCh == 0
NoSid == 0
RxTime == 3
Succ(n) == n + 1
\* a message is a record, or what has r = "half" and then the record; anything else is broken
Half0 == [r |-> "half"]
Junk0 == [r |-> "junk"]
NoF(r) == [r |-> r, ty |-> "none", ck |-> 0, ch |-> 0, d |-> 0]
FrameOf(b) == IF b = <<>> \/ (Len(b) = 1 /\ b[1].r = "half") THEN NoF("more")
              ELSE IF Len(b) = 1 /\ b[1].r = "ok" THEN b[1]
              ELSE IF Len(b) = 2 /\ b[1].r = "half" /\ b[2].r = "ok" THEN b[2]
              ELSE NoF("bad")
HelloOf(d) == d
Same(d)    == d
INSTANCE UaServer WITH OpnOf <- Same, CloOf <- Same, MsgOf <- Same, SvcOf <- Same

VARIABLES t, s, v,       \* the components
          bt, bs, bv,    \* what waits for them
          cl,            \* clients by link: what each was told and does
          nk, ns, nf,    \* links made, sessions created, faults so far
          hist
vars == <<t, s, v, bt, bs, bv, cl, nk, ns, nf, hist>>
View == <<t, s, v, bt, bs, bv, cl, nk, ns, nf>>

-----------------------------------------------------------------------------
(* clients *)
C0 == [n |-> 0, seq |-> 0, ch |-> NoCh, tok |-> 0, last |-> 0, sid |-> NoSid, act |-> FALSE, open |-> {}, ok |-> TRUE]

F(ty, ch, d) == [r |-> "ok", ty |-> ty, ck |-> 70, ch |-> ch, d |-> d]

\* requests carry the number of the link and a number of their own as request id and handle
Rid(k) == 10 * k + cl[k].n + 1
Msg(k, svc, auth) ==
    LET c == cl[k] IN
    F("msg", c.ch, [r |-> "ok", tok |-> c.tok, seq |-> c.seq + 1, rid |-> Rid(k), d |-> [r |-> "ok", svc |-> svc, h |-> Rid(k), auth |-> auth, x |-> <<>>]])

\* what the server says on a link; what a client makes of it
Hear(c, f) ==
    IF f.ty = "ack" THEN [c EXCEPT !.ok = c.ok /\ c.n = 0]
    ELSE IF f.ty = "opn"
    THEN [c EXCEPT !.ch = f.ch, !.tok = f.d.tok, !.last = f.d.seq, !.act = FALSE, !.open = @ \ {<<449, f.d.rid>>},
                   !.ok = c.ok /\ <<449, f.d.rid>> \in c.open /\ f.d.rid = f.d.h]
    ELSE LET svc == IF f.ty = "clo" THEN 455 ELSE f.d.d.svc
             h   == IF f.ty = "clo" THEN f.d.h ELSE f.d.d.h
         IN  [c EXCEPT !.last = f.d.seq, !.open = @ \ {<<svc, f.d.rid>>},
                       !.act = @ \/ svc = 470,
                       !.sid = IF svc = 464 THEN f.d.d.x[1] ELSE @,
                       !.ok = /\ c.ok /\ c.ch # NoCh /\ f.ch = c.ch /\ f.d.tok = c.tok /\ f.d.seq = c.last + 1
                              /\ <<svc, f.d.rid>> \in c.open /\ f.d.rid = h
                              /\ svc = 634 => c.act]

-----------------------------------------------------------------------------
(* numbers chosen by the components: the next in turn, never one a waiting   *)
(* message still speaks of (there are 32 of each, used in turn)              *)
Waiting == {bt[j] : j \in 1..Len(bt)} \cup {bs[j] : j \in 1..Len(bs)} \cup {bv[j] : j \in 1..Len(bv)}
ConnIds == {t.cons[k].id : k \in DOMAIN t.cons} \cup {m.c : m \in Waiting}
ChanIds == DOMAIN s.chans \cup {m.ch : m \in {x \in Waiting : x.m # "relreq"}} \cup {v.sess[i].ch : i \in DOMAIN v.sess}
                          \cup {t.cons[k].as : k \in DOMAIN t.cons}
SessIds == DOMAIN v.sess \cup {m.sid : m \in {x \in Waiting : x.m \in {"ind", "enc", "assoc"}}} \cup {s.chans[c].sid : c \in DOMAIN s.chans}
           \cup {cl[k].sid : k \in DOMAIN cl}
Next0(S) == CHOOSE n \in 1..40 : n \notin S /\ \A m \in 1..n - 1 : m \in S

Log(i) == hist' = IF Gen THEN Append(hist, i) ELSE <<>>

\* the transport has done r
FromT(r, cl1) ==
    /\ t' = r.st
    /\ bs' = bs \o r.post
    /\ cl' = [k \in DOMAIN cl1 |-> LET J == {j \in 1..Len(r.tx) : r.tx[j][1] = k} IN
                IF J = {} THEN cl1[k] ELSE Hear(cl1[k], r.tx[CHOOSE j \in J : TRUE][2])]
    /\ UNCHANGED <<s, v, bv>>

Quiet == bt = <<>> /\ bs = <<>> /\ bv = <<>>
Turn  == Atomic => Quiet

Connect ==
    /\ Turn /\ nk < Links /\ TLive(t) < Pool
    /\ LET r == TAccept(t, nk, Next0(ConnIds)) IN FromT(r, With(cl, nk, C0))
    /\ nk' = nk + 1
    /\ Log([op |-> "acc"])
    /\ UNCHANGED <<ns, nf, bt>>

Send(k, f, i, c1) ==
    /\ FromT(TData(t, k, <<f>>, 0), [cl EXCEPT ![k] = c1])
    /\ Log(i)
    /\ UNCHANGED <<nk, bt>>

Hello(k) ==
    /\ t.cons[k].st = "hello" /\ t.cons[k].buf = <<>>
    /\ Send(k, F("hel", 0, "ok"), [op |-> "hel", k |-> k], cl[k])
    /\ UNCHANGED <<ns, nf>>

\* a well-formed message
Ask(k) ==
    /\ t.cons[k].st = "conn" /\ cl[k].n < Reqs
    /\ LET c == cl[k]
           up(svc) == [c EXCEPT !.n = @ + 1, !.seq = @ + 1, !.open = @ \cup {<<svc, Rid(k)>>}]
       IN  \/ /\ "open" \in What
              /\ Send(k, F("opn", 0, [r |-> "ok", seq |-> 1, rid |-> Rid(k), h |-> Rid(k), life |-> 5]), [op |-> "open", k |-> k],
                      [c EXCEPT !.n = @ + 1, !.seq = 1, !.open = @ \cup {<<449, Rid(k)>>}])
              /\ UNCHANGED ns
           \/ /\ c.ch # NoCh
              /\ \/ /\ "clo" \in What
                    /\ Send(k, F("clo", c.ch, [r |-> "ok", tok |-> c.tok, seq |-> c.seq + 1, rid |-> Rid(k), h |-> Rid(k)]),
                            [op |-> "clo", k |-> k], up(455))
                    /\ UNCHANGED ns
                 \/ /\ "gep" \in What /\ Send(k, Msg(k, 428, 0), [op |-> "gep", k |-> k], up(431)) /\ UNCHANGED ns
                 \/ /\ "read" \in What /\ Send(k, Msg(k, 631, 0), [op |-> "read", k |-> k], up(634)) /\ UNCHANGED ns
                 \/ /\ "create" \in What /\ ns < Sess
                    /\ Send(k, Msg(k, 461, 0), [op |-> "create", k |-> k], up(464)) /\ ns' = ns + 1
                 \/ \E o \in DOMAIN cl : cl[o].sid # NoSid
                       /\ \/ "activate" \in What /\ Send(k, Msg(k, 467, cl[o].sid), [op |-> "activate", k |-> k, of |-> o], up(470))
                          \/ "close" \in What /\ Send(k, Msg(k, 473, cl[o].sid), [op |-> "close", k |-> k, of |-> o], up(476))
                       /\ UNCHANGED ns
    /\ UNCHANGED nf

\* what a client should not do, and what may happen to a link
Trouble(k) ==
    /\ nf < Faults
    /\ nf' = nf + 1
    /\ LET c == cl[k]
           m == F("msg", c.ch, [r |-> "ok", tok |-> c.tok, seq |-> c.seq + 1, rid |-> Rid(k), d |-> [r |-> "fail", svc |-> 0, h |-> 0, auth |-> 0, x |-> <<>>]])
           up == [c EXCEPT !.n = @ + 1, !.seq = @ + 1]
       IN  \/ Send(k, Junk0, [op |-> "junk", k |-> k], c) /\ UNCHANGED ns
           \/ /\ t.cons[k].st = "conn" /\ cl[k].n < Reqs
              /\ \/ Send(k, F("opn", 0, [r |-> "fail"]), [op |-> "badopn", k |-> k], up)
                 \/ Send(k, F("hel", 0, "ok"), [op |-> "hel", k |-> k], up)
                 \/ \E o \in DOMAIN cl \ {k} :
                      /\ cl[o].ch # NoCh
                      /\ \/ Send(k, [Msg(k, 631, 0) EXCEPT !.ch = cl[o].ch, !.d.tok = cl[o].tok, !.d.seq = cl[o].seq + 1],
                                 [op |-> "steal", k |-> k, of |-> o], up)
                         \/ c.ch # NoCh /\ Send(k, [Msg(k, 631, 0) EXCEPT !.d.tok = cl[o].tok + 100], [op |-> "badtok", k |-> k], up)
                 \/ /\ c.ch # NoCh
                    /\ \/ Send(k, [m EXCEPT !.d.tok = @ + 100], [op |-> "badtok", k |-> k], up)
                       \/ Send(k, [m EXCEPT !.d.seq = @ + 1], [op |-> "badseq", k |-> k], up)
                       \/ Send(k, [m EXCEPT !.d.seq = @ - 1], [op |-> "oldseq", k |-> k], up)
                       \/ Send(k, m, [op |-> "nosvc", k |-> k], up)
                       \/ Send(k, [m EXCEPT !.ch = @ + 1], [op |-> "badch", k |-> k], up)
              /\ UNCHANGED ns
           \/ /\ FromT(TEnd(t, k), cl) /\ \E o \in {"eof", "le"} : Log([op |-> o, k |-> k])
              /\ UNCHANGED <<ns, nk, bt>>
           \/ /\ ~t.cons[k].sf /\ t' = [t EXCEPT !.cons[k].sf = TRUE] /\ Log([op |-> "sf", k |-> k])
              /\ UNCHANGED <<s, v, bs, bt, bv, cl, ns, nk>>

Half(k) ==
    /\ Faults > 0 /\ t.cons[k].buf = <<>> /\ nf < Faults
    /\ nf' = nf + 1
    /\ Send(k, Half0, [op |-> "half", k |-> k], cl[k]) /\ UNCHANGED ns

Silence ==
    /\ Turn /\ nf < Faults /\ DOMAIN t.cons # {}
    /\ nf' = nf + 1
    /\ \E n \in {1, RxTime} : FromT(TTick(t, n), cl) /\ Log([op |-> "tick", n |-> n])
    /\ UNCHANGED <<ns, nk, bt>>

DeliverT ==
    /\ bt # <<>> /\ bt' = Tail(bt)
    /\ FromT(TReceive(t, [Head(bt) EXCEPT !.m = @]), cl)
    /\ Log([op |-> "dlv", q |-> "T"])
    /\ UNCHANGED <<ns, nk, nf>>

\* what the secure channels send down is carried as is: the frame on the link holds the message
Carry(m) == IF m.m = "relreq" THEN m
            ELSE [m |-> m.m, c |-> m.c, ch |-> m.ch, ck |-> m.ck,
                  d |-> CASE m.m = "opnr" -> [seq |-> m.seq, rid |-> m.rid, h |-> m.h, tok |-> m.tok]
                          [] m.m = "clor" -> [seq |-> m.seq, rid |-> m.rid, h |-> m.h, tok |-> m.tok]
                          [] m.m = "send" -> [seq |-> m.seq, rid |-> m.rid, tok |-> m.tok, d |-> m.d]]

DeliverS ==
    /\ bs # <<>>
    /\ LET m == Head(bs)
           ch == Next0(ChanIds)
           r == SReceive(s, m, [ch |-> ch, tok |-> 10 * ch + m.c, seq |-> 1])
           down == SelectSeq(r.post, LAMBDA x : x.m # "ind")
       IN  /\ s' = r.st
           /\ bt' = bt \o [j \in 1..Len(down) |-> Carry(down[j])]
           /\ bv' = bv \o SelectSeq(r.post, LAMBDA x : x.m = "ind")
           /\ bs' = Tail(bs)
    /\ Log([op |-> "dlv", q |-> "S"])
    /\ UNCHANGED <<t, v, cl, ns, nk, nf>>

DeliverV ==
    /\ bv # <<>>
    /\ LET r == VReceive(v, Head(bv), Next0(SessIds)) IN
       /\ v' = r.st
       /\ bs' = bs \o [j \in 1..Len(r.post) |-> IF r.post[j].m = "assoc" THEN r.post[j]
                        ELSE [m |-> "enc", c |-> r.post[j].c, ch |-> r.post[j].ch, rid |-> r.post[j].rid, sid |-> r.post[j].sid,
                              d |-> [svc |-> r.post[j].svc, h |-> r.post[j].h, x |-> r.post[j].x]]]
       /\ bv' = Tail(bv)
    /\ Log([op |-> "dlv", q |-> "V"])
    /\ UNCHANGED <<t, s, bt, cl, ns, nk, nf>>

Init ==
    /\ t = [T0 EXCEPT !.up = TRUE, !.lis = 0] /\ s = [S0 EXCEPT !.up = TRUE] /\ v = [V0 EXCEPT !.up = TRUE]
    /\ bt = <<>> /\ bs = <<>> /\ bv = <<>> /\ cl = Empty /\ nk = 0 /\ ns = 0 /\ nf = 0 /\ hist = <<>>

Deliver == DeliverT \/ DeliverS \/ DeliverV
Next == \/ Connect \/ Silence \/ Deliver
        \/ Turn /\ \E k \in DOMAIN t.cons : Hello(k) \/ Ask(k) \/ Trouble(k) \/ Half(k)

Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(DeliverT) /\ WF_vars(DeliverS) /\ WF_vars(DeliverV)

Emit == PrintT("S " \o ToJson(hist'))

-----------------------------------------------------------------------------
(* Every client sees what it should: each answer belongs to a request of its *)
(* own, answered once, under the token and the next sequence number of the   *)
(* channel it was told; Read is answered only after an activation.           *)
Isolation == \A k \in DOMAIN cl : cl[k].ok

\* numbers in use are different; a channel belongs to one connection
Distinct == /\ \A j, k \in DOMAIN t.cons : j # k => t.cons[j].id # t.cons[k].id
            /\ \A j, k \in DOMAIN t.cons : j # k /\ t.cons[j].as # NoCh => t.cons[j].as # t.cons[k].as
Bounded  == TLive(t) <= Pool /\ Cardinality(DOMAIN s.chans) <= Pool /\ Cardinality(DOMAIN v.sess) <= Pool

\* when everything is delivered, channels and the connections they serve fit together: nothing is left over
NoOrphans ==
    Quiet => /\ \A ch \in DOMAIN s.chans : \E k \in DOMAIN t.cons : t.cons[k].id = s.chans[ch].c /\ t.cons[k].as = ch
             /\ \A k \in DOMAIN t.cons : t.cons[k].as # NoCh =>
                   t.cons[k].as \in DOMAIN s.chans /\ s.chans[t.cons[k].as].c = t.cons[k].id

\* a connection associated with a channel is one that said Hello and opened one
Greeted == \A k \in DOMAIN t.cons : t.cons[k].st = "hello" => t.cons[k].as = NoCh

\* a channel told to a client is a channel opened by it
Told == \A k \in DOMAIN t.cons : t.cons[k].as # NoCh /\ t.cons[k].as \in DOMAIN s.chans /\ s.chans[t.cons[k].as].c = t.cons[k].id
            => s.chans[t.cons[k].as].tok = cl[k].tok /\ cl[k].ch = t.cons[k].as

\* silence ends every connection, and then nothing is left
SilenceEnds == DOMAIN TTick(t, RxTime).st.cons = {}

\* a session is bound to a channel exactly when activated
Bound == \A i \in DOMAIN v.sess : (v.sess[i].st = "active") = (v.sess[i].ch # NoCh)

Drains == []<>Quiet
=============================================================================
