------------------------------- MODULE LoopMC -------------------------------
EXTENDS Loop
CONSTANTS Clients, Runners, Budget
VARIABLES left
mcvars == <<vars, left>>
MCInit == Init /\ left = [a \in Actors |-> IF a \in Ids THEN 1 ELSE Budget]
Use(a) == left[a] > 0 /\ left' = [left EXCEPT ![a] = @ - 1]
Keep == UNCHANGED left
ThOf(a) == IF a \in Ids THEN (CHOOSE t \in Threads : stk[t] # <<>> /\ lp[CurOf(t)].st = "run") ELSE a
Acting(a) == IF a \in Ids THEN task[a] = "run" ELSE TRUE
(* only runners (and one task at a time, for ThOf to be unique) run loops *)
NextId == {i \in Ids : Fresh(i) /\ \A j \in Ids : j < i => ~Fresh(j)}
Call(a) == \E d \in Disps :
    \/ a \notin Runners /\ ((\E id \in NextId : CallPush(a, d, id) \/ CallDefer(a, d, id, FALSE) \/ CallDefer(a, d, id, TRUE) \/ CallDefer(a, 0, id, FALSE)) \/ CallStop(a, d))
    \/ (a \in Runners \union Ids) /\ CallRun(a, d, ThOf(a), CurOf(ThOf(a)))
Back(a) == (\E s \in {"push", "stop"} : RetOp(a, s)) \/ RetDefer(a) \/ RetHandoff(a)
           \/ (\E t \in BOOLEAN, c \in Disps \union {0} : RetRun(a, t, c))
Start(d) == q[d] # <<>> /\ Run(Head(q[d]), lp[d].th, d)
Finish(id) == \E t \in BOOLEAN, c \in Disps : End(id, t, c)
MCNext == \/ \E a \in Actors : Acting(a) /\ ((Use(a) /\ Call(a)) \/ (Keep /\ Back(a)))
          \/ Keep /\ (Silent \/ (\E d \in Disps : Start(d)) \/ \E id \in Ids : Finish(id))
MCSpec == MCInit /\ [][MCNext]_mcvars
MCLive == /\ MCSpec /\ \A a \in Actors : WF_mcvars(Keep /\ Back(a)) /\ WF_mcvars(Keep /\ (PushLin(a) \/ StopLin(a)))
          /\ \A d \in Disps : WF_mcvars(Keep /\ (Check(d) \/ Wake(d))) /\ WF_mcvars(Keep /\ Start(d))
          /\ \A id \in Ids : WF_mcvars(Keep /\ Finish(id))
StopEnds == \A d \in Disps : (d \in done) ~> (lp[d] = Off \/ \E a \in Ids : task[a] = "run" /\ ps[a] # Idle)
Drains == \A id \in Ids : task[id] = "queued" ~> (task[id] = "done" \/ \A d \in Disps : lp[d] = Off)
=============================================================================
