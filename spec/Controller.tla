----------------------------- MODULE Controller -----------------------------
(* The controller: brings the Modbus and OPC UA components up and down and   *)
(* runs the Modbus self-test, being at once the user of the Modbus client    *)
(* and the application behind the Modbus server. Step(st, i, rv) is the      *)
(* state after input i and the messages sent; rv is the test pattern.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* address 127.0.0.1 with a port, as carried by messages
Local(hi, lo) == <<127, 0, 0, 1, hi, lo>>

(* The self-test: requests, the first n bytes of the pattern as their data,  *)
(* and what has to come back. Every test has 1024 registers of its own.      *)
C(cid, a, f, si, ni, n, err, ok) ==
    [cid |-> cid, a |-> a, f |-> f, si |-> si, ni |-> ni, n |-> n, err |-> err, ok |-> ok]
Cases == <<
    C(0, 1, 16, 890, 120, 240, 0, 1),  C(0, 1, 4, 0, 126, 0, 0, 0),      C(0, 1, 4, 10, 10, 0, 4, 1),
    C(0, 1, 4, 890, 120, 0, 0, 1),     C(0, 1, 6, 190, 0, 2, 0, 1),      C(0, 1, 6, 190, 10, 2, 0, 0),
    C(0, 1, 6, 190, 0, 0, 0, 0),       C(0, 1, 16, 890, 120, 240, 0, 1), C(0, 1, 16, 256, 1, 2, 0, 1),
    C(0, 1, 16, 256, 1, 4, 0, 0),      C(0, 1, 4, 10, 125, 0, 0, 1),     C(0, 1, 4, 0, 0, 0, 0, 1),
    C(99, 1, 4, 10, 125, 0, 0, 0),     C(0, 1, 99, 10, 125, 0, 0, 0),    C(0, 248, 4, 10, 125, 0, 0, 0),
    C(0, 1, 6, 190, 0, 2, 0, 0) >>
NCases == Len(Cases)
Room   == 2048                      \* bytes of the registers of one test
Case(tid) == Cases[tid + 1]
Pause  == 10                        \* ms between two rounds

(* The state                                                                 *)
(*   mb    "off" | "init" | "conf" | "run" | "pause" | "failed"              *)
(*   ua    the OPC UA components were started                                *)
(*   n     answers of this round so far     t   ms left of the pause         *)
(*   wr    registers written: test -> offset -> byte                         *)
(*   wild  what follows is not determined                                    *)
NoWrites == [x \in 0..NCases - 1 |-> <<>>]
Init0 == [mb |-> "off", ua |-> FALSE, n |-> 0, t |-> 0, wr |-> NoWrites, wild |-> FALSE]

R(st, out) == [st |-> st, out |-> out]
M(m) == [m |-> m]

Byte(st, rv, tid, p) == IF p \in DOMAIN st.wr[tid] THEN st.wr[tid][p] ELSE rv[p + 1]
Bytes(st, rv, tid, from, n) == [j \in 1..n |-> Byte(st, rv, tid, from + j - 1)]
Write(st, tid, from, d) ==
    [st EXCEPT !.wr[tid] = [p \in DOMAIN @ \cup from..(from + Len(d) - 1) |->
                              IF p >= from /\ p < from + Len(d) THEN d[p - from + 1] ELSE @[p]]]

-----------------------------------------------------------------------------
Requests(rv) ==
    [m |-> "madu", items |-> [j \in 1..NCases |->
        LET c == Cases[j] IN
        [cid |-> c.cid, tid |-> j - 1, f |-> c.f, a |-> c.a, si |-> c.si, ni |-> c.ni, d |-> SubSeq(rv, 1, c.n)]]]

Config == [m |-> "mcfg", items |-> <<[id |-> 0, mode |-> "client", a |-> Local(47, 113)],
                                     [id |-> 0, mode |-> "server", a |-> Local(47, 113)]>>]

Round(st, rv) == R([st EXCEPT !.mb = "run", !.n = 0], <<Requests(rv)>>)

\* is this the answer the test expects?
Expected(st, rv, i) ==
    /\ i.tid \in 0..NCases - 1
    /\ LET c == Case(i.tid) IN
       /\ i.cid = c.cid /\ i.st = c.ok /\ i.err = c.err
       /\ c.ok = 1 /\ c.err = 0 =>
            CASE c.f \in {3, 4} -> Len(i.d) = 2 * c.ni /\ i.d = Bytes(st, rv, i.tid, 2 * c.si, 2 * c.ni)
              [] c.f = 6  -> Len(i.d) = 2 /\ SubSeq(rv, 1, c.n) = Bytes(st, rv, i.tid, 2 * c.si, c.n)
              [] c.f = 16 -> Len(i.d) = 0 /\ SubSeq(rv, 1, c.n) = Bytes(st, rv, i.tid, 2 * c.si, c.n)

Answer(st, rv, i) ==
    IF st.mb # "run" THEN R(st, <<>>)
    ELSE IF ~Expected(st, rv, i) THEN R([st EXCEPT !.mb = "failed"], <<M("mrel")>>)
    ELSE IF st.n + 1 = NCases THEN R([st EXCEPT !.mb = "pause", !.n = 0, !.t = Pause], <<>>)
    ELSE R([st EXCEPT !.n = @ + 1], <<>>)

Max(a, b) == IF a > b THEN a ELSE b
\* the application behind the server
Serve(st, rv, i) ==
    LET rsp(err, ok, d) == [m |-> "arsp", sv |-> i.sv, sid |-> i.sid, tid |-> i.tid, err |-> err, st |-> ok, d |-> d]
        at == 2 * i.si
    IN  IF st.mb # "run" THEN R(st, <<>>)
        ELSE IF i.tid >= NCases \/ at + Max(2 * i.ni, Len(i.d)) > Room THEN R(st, <<rsp(2, 1, <<>>)>>)
        ELSE LET c == Case(i.tid) IN
             CASE i.f \in {3, 4} -> R(st, <<rsp(c.err, c.ok, Bytes(st, rv, i.tid, at, 2 * i.ni))>>)
               [] i.f = 6  -> R(Write(st, i.tid, at, i.d), <<rsp(c.err, c.ok, i.d)>>)
               [] i.f = 16 -> R(Write(st, i.tid, at, i.d), <<rsp(c.err, c.ok, <<>>)>>)
               [] OTHER    -> R(st, <<rsp(c.err, c.ok, <<>>)>>)

-----------------------------------------------------------------------------
Start(st) == R([Init0 EXCEPT !.mb = "init", !.ua = TRUE, !.wild = st.wild],
               <<[m |-> "minit", c |-> 1, s |-> 1], M("sinit"), M("tinit"), M("vinit")>>)
Stop(st)  == R([Init0 EXCEPT !.wild = st.wild],
               IF st.mb = "off" THEN <<>> ELSE <<M("mrel"), M("srel"), M("trel"), M("vrel")>>)

Tick(st, rv, n) == IF st.mb # "pause" THEN R(st, <<>>)
                   ELSE IF n >= st.t THEN Round([st EXCEPT !.t = 0], rv)
                   ELSE R([st EXCEPT !.t = @ - n], <<>>)

Up(st, m) == R(st, IF st.ua THEN <<m>> ELSE <<>>)

Step(st, i, rv) ==
    CASE i.op = "start" -> Start(st)
      [] i.op = "stop"  -> Stop(st)
      [] i.op = "minit" -> IF st.mb = "init" THEN R([st EXCEPT !.mb = "conf"], <<Config>>)
                           ELSE R([st EXCEPT !.wild = @ \/ st.mb = "failed"], <<>>)
      [] i.op = "mcfg"  -> IF st.mb = "conf" THEN Round(st, rv) ELSE R(st, <<>>)
      [] i.op = "crsp"  -> Answer(st, rv, i)
      [] i.op = "areq"  -> Serve(st, rv, i)
      [] i.op = "tick"  -> Tick(st, rv, i.n)
      [] i.op = "sinit" -> Up(st, M("scfg"))
      [] i.op = "vinit" -> Up(st, M("vcfg"))
      [] i.op = "tinit" -> Up(st, [m |-> "tcfg", a |-> Local(17, 17)])
      [] i.op = "conn"  -> R(st, <<M("conn")>>)      \* connector and detector answer their initialisation
      [] i.op = "det"   -> R(st, <<M("det")>>)
      [] i.op \in {"mrel", "scfg", "srel", "tcfg", "trel", "vcfg", "vrel"} -> R(st, <<>>)
=============================================================================
