------------------------------ MODULE ChannelMC ------------------------------
EXTENDS Channel
CONSTANTS Budget, Disps
VARIABLES left, nextv
mcvars == <<vars, left, nextv>>
MCInit == Init /\ left = [a \in Actors |-> Budget] /\ nextv = 1
Use(a) == left[a] > 0 /\ left' = [left EXCEPT ![a] = @ - 1]
Keep == UNCHANGED <<left, nextv>>
MCNext == \E a \in Actors :
    \/ Use(a) /\ UNCHANGED nextv /\ ((\E d \in Disps : CallRead(a, d, a, 0)) \/ CallTry(a, "tryr", 0, a) \/ CallClose(a, a) \/ CallQuery(a))
    \/ Use(a) /\ nextv' = nextv + 1 /\ ((\E d \in Disps : CallWrite(a, nextv, d, a, 0)) \/ CallTry(a, "tryw", nextv, a))
    \/ Keep /\ Silent(a)
    \/ Keep /\ (RetClose(a) \/ (\E v \in BOOLEAN : RetQuery(a, v)) \/ \E r \in 0..8 : RetTry(a, r) \/ \E th \in Actors, c \in Disps : Resume(a, r, th, c))
MCSpec == MCInit /\ [][MCNext]_mcvars /\ \A a \in Actors :
    /\ WF_mcvars(Keep /\ Silent(a))
    /\ WF_mcvars(Keep /\ (RetClose(a) \/ (\E v \in BOOLEAN : RetQuery(a, v)) \/ \E r \in 0..8 : RetTry(a, r) \/ \E th \in Actors, c \in Disps : Resume(a, r, th, c)))
(* closing ends every wait *)
CloseEnds == \A a \in Actors : (closed /\ ps[a].s \in {"read", "write"}) ~> (ps[a] = Idle)
=============================================================================
