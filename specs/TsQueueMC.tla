------------------------------ MODULE TsQueueMC ------------------------------
EXTENDS TsQueue
CONSTANTS Budget
VARIABLES left, nextv,
          hist     \* values popped from queue 1, in order (only pushes and pops of queue 1 count)
mcvars == <<vars, left, nextv, hist>>
MCInit == InitWith([k \in Qs |-> <<>>]) /\ left = [a \in Actors |-> Budget] /\ nextv = 1 /\ hist = <<>>
Use(a) == left[a] > 0 /\ left' = [left EXCEPT ![a] = @ - 1]
MCNext == \E a \in Actors :
    \/ Use(a) /\ \E k \in Qs : CallPush(a, k, nextv) /\ nextv' = nextv + 1 /\ UNCHANGED hist
    \/ Use(a) /\ UNCHANGED <<nextv, hist>> /\ \E k \in Qs : CallPop(a, k) \/ \E f \in Qs : CallCopy(a, k, f) \/ CallMove(a, k, f)
    \/ PopLin(a) /\ UNCHANGED <<left, nextv>> /\ hist' = IF ps'[a].r # 0 THEN Append(hist, ps'[a].r) ELSE hist
    \/ (PushLin(a) \/ CopyLin(a) \/ MoveLin(a)) /\ UNCHANGED <<left, nextv, hist>>
    \/ (\E r \in 0..9 : Ret(a, r)) /\ UNCHANGED <<left, nextv, hist>>
MCSpec == MCInit /\ [][MCNext]_mcvars
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
NoDupInQueue == \A k \in Qs : Distinct(q[k])
(* without copies every value exists at most once, popped or stored *)
Total == LET RECURSIVE S(_)
             S(X) == IF X = {} THEN 0 ELSE LET k == CHOOSE k \in X : TRUE IN Len(q[k]) + S(X \ {k})
         IN S(Qs)
Inv == NoDupInQueue
=============================================================================
