------------------------------ MODULE ScopeMC ------------------------------
EXTENDS Scope
CONSTANTS Budget
VARIABLE left
mcvars == <<vars, left>>
MCInit == Init0 /\ left = [a \in Actors |-> IF a \in Clients THEN Budget ELSE 1]
Use(a) == left[a] > 0 /\ left' = [left EXCEPT ![a] = @ - 1]
Keep == UNCHANGED left
ThOf(a) == a
NextTask == {t \in Tasks : ps[t] = None /\ \A u \in Tasks : u < t => ps[u] # None}
NextFut == {f \in Futs : ps[f] = None /\ \A u \in Futs : u < f => ps[u] # None}
Returns(a) == RetLaunch(a) \/ RetFut(a) \/ (\E v \in {"ok", "dup"} : \E th \in Actors : Resume(a, th, v))
              \/ (\E v \in 0..Cardinality(Tasks) : RetQuery(a, v)) \/ (\E v \in {"no", "yes"} : RetPoll(a, v)) \/ (\E v \in {"ok", "dup"} : RetGet(a, v))
MCNext == \E a \in Actors :
    \/ Use(a) /\ \/ \E t \in NextTask, sync \in BOOLEAN : CallLaunch(a, t, sync, ThOf(a))
                 \/ CallJoin(a, ThOf(a))
                 \/ \E f \in NextFut : CallFut(a, f, ThOf(a))
                 \/ CallQuery(a)
                 \/ \E f \in Futs : CallPoll(a, f) \/ (a \in Clients /\ CallGet(a, f))
    \/ Keep /\ Silent(a)
    \/ Keep /\ (\E th \in Actors : TaskStart(a, th))
    \/ Keep /\ TaskEnd(a, a)
    \/ Keep /\ Returns(a)
MCSpec == MCInit /\ [][MCNext]_mcvars
MCLive == MCSpec /\ \A a \in Actors : WF_mcvars(Keep /\ Silent(a)) /\ WF_mcvars(Keep /\ (\E th \in Actors : TaskStart(a, th)))
                                   /\ WF_mcvars(Keep /\ TaskEnd(a, a)) /\ WF_mcvars(Keep /\ Returns(a))
(* every joiner continues, every future becomes ready, when all tasks end *)
JoinEnds == \A a \in Clients : ps[a].s = "join" ~> ps[a].s # "join"
FutEnds == \A f \in Futs : ps[f].s = "join" ~> ps[f].s = "fdone"
=============================================================================
