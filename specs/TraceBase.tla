----------------------------- MODULE TraceBase -----------------------------
(* Common part of all trace specifications: a batch of traces, one initial state per trace, a register per trace that *)
(* holds the number of events matched so far, and acceptance by postcondition.                                        *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
VARIABLES tid, l,
          aq    \* number of the latest await of each client
tvars == <<tid, l, aq>>
Traces == JsonDeserialize(IOEnv.TRACES)
NTraces == Len(Traces)
Cfg == Traces[tid].cfg
Len1 == Len(Traces[tid].ev)
Event1 == Traces[tid].ev[l]
HasEvent == l <= Len(Traces[tid].ev)
Range(s) == {s[i] : i \in DOMAIN s}
TraceStart == tid \in 1..NTraces /\ l = 1 /\ aq = <<>> /\ TLCSet(tid, 0)
Consume == /\ l' = l + 1 /\ tid' = tid
           /\ aq' = IF Event1.e = "call" /\ "q" \in DOMAIN Event1 THEN (Event1.a :> Event1.q) @@ aq ELSE aq
(* The coroutine of a client has been suspended by its await number q: this await has taken effect (p: state of the client) *)
SuspOk(p) == IF Event1.a \in DOMAIN aq /\ aq[Event1.a] = Event1.q /\ "ph" \in DOMAIN p THEN p.ph # "called" ELSE TRUE
Stay == UNCHANGED tvars
(* CONSTRAINT: records progress and stops exploring a trace as soon as it has been accepted *)
Progress1 ==
    /\ IF TLCGet(tid) < l - 1 THEN TLCSet(tid, l - 1) ELSE TRUE
    /\ TLCGet(tid) < Len1
(* POSTCONDITION *)
Accepted == \A t \in 1..NTraces :
    IF TLCGet(t) = Len(Traces[t].ev) THEN TRUE ELSE PrintT(<<"REJECT", t, TLCGet(t)>>)
=============================================================================
