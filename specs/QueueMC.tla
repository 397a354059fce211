------------------------------ MODULE QueueMC ------------------------------
EXTENDS Queue
CONSTANTS Budget, Disps, Maxs
VARIABLES left, nextv
mcvars == <<vars, left, nextv>>
MCInit ==
    /\ \E f \in [Qs -> Maxs] : InitWith([k \in Qs |-> NewQ(f[k], 0)])
    /\ left = [a \in Actors |-> Budget] /\ nextv = 1
Use(a) == left[a] > 0 /\ left' = [left EXCEPT ![a] = @ - 1]
Keep == UNCHANGED <<left, nextv>>
Ops == {"trypop", "trypush", "tryfail", "size", "empty", "clear", "move"}
Cont(a) == Keep /\ \E r \in 0..8 : (\E op \in Ops : Ret(a, op, r)) \/ \E th \in Actors, c \in Disps : Resume(a, r, th, c)
MCNext == \E a \in Actors :
    \/ Use(a) /\ UNCHANGED nextv /\ \E k \in Qs :
          \/ \E d \in Disps : CallPop(a, k, d, a, 0)
          \/ CallTry(a, "trypop", k, 0, a)
          \/ CallSize(a, k) \/ CallFail(a, k, a) \/ CallClear(a, k, a)
          \/ \E f \in Qs : CallMove(a, k, f, a)
    \/ Use(a) /\ nextv' = nextv + 1 /\ \E k \in Qs : (\E d \in Disps : CallPush(a, k, nextv, d, a, 0)) \/ CallTry(a, "trypush", k, nextv, a)
    \/ Keep /\ Silent(a)
    \/ Cont(a)
MCSpec == MCInit /\ [][MCNext]_mcvars /\ \A a \in Actors : WF_mcvars(Keep /\ Silent(a)) /\ WF_mcvars(Cont(a))
Completes == \A a \in Actors : (ps[a].s # "idle" /\ ps[a].ph \in {"called", "rel", "done"}) ~> (ps[a].s = "idle" \/ ps[a].ph = "susp")
=============================================================================
