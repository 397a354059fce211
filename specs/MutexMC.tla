------------------------------ MODULE MutexMC ------------------------------
EXTENDS Mutex
CONSTANTS Budget
VARIABLE left
mcvars == <<vars, left>>
MCInit == /\ InitWith(FALSE, {}) /\ left = [a \in Actors |-> Budget]
Use(a) == left[a] > 0 /\ left' = [left EXCEPT ![a] = @ - 1]
Keep == UNCHANGED left
MCNext == \E a \in Actors :
    \/ Use(a) /\ (CallLock(a, a) \/ CallTry(a) \/ CallQuery(a))
    \/ Keep /\ (CallUnlock(a, a) \/ Silent(a) \/ RetUnlock(a) \/ \E v \in BOOLEAN : RetTry(a, v) \/ RetQuery(a, v))
    \/ Keep /\ \E th \in Actors : Acquired(a, th)
MCSpec == MCInit /\ [][MCNext]_mcvars /\ \A a \in Actors : WF_mcvars(Keep /\
    (CallUnlock(a, a) \/ Silent(a) \/ RetUnlock(a) \/ (\E v \in BOOLEAN : RetTry(a, v) \/ RetQuery(a, v)) \/ \E th \in Actors : Acquired(a, th)))
(* if every owner releases, everybody gets the lock; waiters overtake nobody (FIFO): checked as an action property *)
Progress == \A a \in Actors : (ps[a].s = "lock") ~> (ps[a].s = "own")
NoBarging == [][\A a \in Actors : (Q # <<>> /\ Q' # Q /\ Len(Q') < Len(Q)) => Q' = Tail(Q) /\ locked']_vars
=============================================================================
