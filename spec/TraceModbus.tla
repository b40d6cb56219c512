---------------------------- MODULE TraceModbus -----------------------------
(* Accepts the behaviours of the implementation the specification allows.    *)
(* Every line of the trace file is one script with the recorded steps; every *)
(* script is a behaviour of its own. Channels compared: Chans.               *)
EXTENDS Modbus, Json, IOUtils

CONSTANT Chans

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr, l, st
vars == <<tr, l, st>>

AsFun(s, K(_), V(_)) ==
    [x \in {K(s[j]) : j \in 1..Len(s)} |-> V(s[CHOOSE j \in 1..Len(s) : K(s[j]) = x])]

Per(s, c) == SelectSeq(s, LAMBDA e : e.c = c)
Ids(s)    == {s[j].c : j \in 1..Len(s)}
SameAnswers(a, b) == \A c \in Ids(a) \cup Ids(b) : Per(a, c) = Per(b, c)

Fwd(o) == [j \in 1..Len(o.adu) |->
             [ok |-> TRUE, tid |-> o.adu[j].tid, f |-> o.adu[j].f, a |-> o.adu[j].a,
              si |-> o.adu[j].si, ni |-> o.adu[j].ni, d |-> o.adu[j].d]]

\* the channels on which a recorded step differs, with expected and recorded values
Diffs(s0, i, o, r) ==
    LET D(ch, e, v) == IF e = v THEN {} ELSE {<<ch, ToString(e), ToString(v)>>}
        sid == IF Len(o.adu) = 1 THEN o.adu[1].sid ELSE -1
        all ==
          D("skip", r.o.skip, o.skip) \cup D("acc", r.o.acc, o.acc)
          \cup (IF SameAnswers(r.o.rsp, o.rsp) THEN {} ELSE {<<"rsp", r.o.rsp, o.rsp>>})
          \cup D("adu", r.o.fwd, Fwd(o))
          \cup (IF Len(o.adu) = 1 /\ Len(r.o.fwd) = 1
                THEN D("adu", s0.con[i.k].sv, o.adu[1].sv)
                     \cup (IF SidFree(s0, i.k, sid) THEN {} ELSE {<<"adu", "session", ToString(sid)>>})
                ELSE {})
          \cup D("msg", r.o.msg, o.msg)
          \cup D("tx", r.o.tx, AsFun(o.tx, LAMBDA e : e.p, LAMBDA e : e.d))
          \cup D("ctx", r.o.ctx, AsFun(o.ctx, LAMBDA e : e.k, LAMBDA e : e.d))
          \cup D("att", r.o.att, AsFun(o.att, LAMBDA e : e.p, LAMBDA e : e.n))
          \cup D("up", LinksUp(r.st), {<<o.up[j].p, o.up[j].st>> : j \in 1..Len(o.up)})
          \cup D("open", OpenConns(r.st), {o.open[j] : j \in 1..Len(o.open)})
          \cup (LET h == Holds(r.st) IN
                IF o.res.l <= h.l /\ o.res.t <= h.l /\ o.res.a <= h.a THEN {}
                ELSE {<<"res", h, o.res>>})
    IN  {d \in all : d[1] \in Chans}

Init == /\ tr \in 1..Len(Traces)
        /\ l = 1
        /\ st = Init0

Steps == Traces[tr].steps

Done(k) == PrintT(<<"DONE", Traces[tr].id, k>>)

Next ==
    /\ l <= Len(Steps)
    /\ tr' = tr
    /\ LET i == Steps[l].i
           o == Steps[l].o
           sid == IF Len(o.adu) = 1 THEN o.adu[1].sid ELSE -1
           r == Step(st, i, sid)
       IN  IF r.st.wild
           THEN Done("wild") /\ l' = Len(Steps) + 1 /\ st' = Init0
           ELSE LET d == Diffs(st, i, o, r) IN
                IF d # {}
                THEN /\ PrintT(<<"MISMATCH", Traces[tr].id, l, ToJson(d)>>)
                     /\ l' = Len(Steps) + 1 /\ st' = Init0
                ELSE /\ l = Len(Steps) => Done("ok")
                     /\ l' = l + 1
                     /\ st' = r.st

Spec == Init /\ [][Next]_vars
=============================================================================
