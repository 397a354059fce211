------------------------------ MODULE TimerMC ------------------------------
EXTENDS Timer
CONSTANTS MaxTime, Budget, Delays, Main, Strict
VARIABLES left
mcvars == <<vars, left>>
MCInit == Init /\ left = [a \in Actors |-> IF a \in Ids THEN 1 ELSE Budget]
Keep == UNCHANGED left
Use(a) == left[a] > 0 /\ left' = [left EXCEPT ![a] = @ - 1]
ThOf(a) == IF a \in Ids THEN 99 ELSE a
May(a) == a \in Clients \/ busy = a
Free == {i \in Ids : Fresh(i) /\ (\A j \in Ids : j < i => ~Fresh(j))}
Destroying == \E a \in Clients : ps[a].s = "destroy"
MCNext ==
    \/ \E a \in Actors :
        \/ May(a) /\ Use(a) /\ ~(a \in Clients /\ (exit \/ Destroying)) /\
            (\/ \E id \in Free, d \in Delays, tok \in Toks \union {0} : CallSched(a, id, now + d, tok, ThOf(a))
             \/ \E id \in Free : CallPush(a, id, ThOf(a))
             \/ \E tok \in Toks : CallStop(a, tok, ThOf(a)))
        \/ a = Main /\ ~exit /\ ~Destroying /\ (\A b \in Clients \ {a} : ps[b].s \in {"idle", "stop"}) /\ Keep /\ CallDestroy(a, a)
    \/ Keep /\ Silent
    \/ Keep /\ now < MaxTime /\ Tick(now + 1, Strict)
    \/ Keep /\ \E id \in Ids, ok \in BOOLEAN : Fire(id, ent[id].kind, ok, 99)
    \/ Keep /\ \E id \in Ids : End(id)
    \/ Keep /\ \E a \in Actors : (\E r \in {0, 1}, s \in {"sched", "push"} : RetOp(a, s, r)) \/ (\E r \in {0, 1} : RetStop(a, r)) \/ RetDestroy(a)
Progress == Keep /\ (Silent \/ (\E id \in Ids, ok \in BOOLEAN : Fire(id, ent[id].kind, ok, 99)) \/ (\E id \in Ids : End(id))
                     \/ \E a \in Actors : (\E r \in {0, 1}, s \in {"sched", "push"} : RetOp(a, s, r)) \/ (\E r \in {0, 1} : RetStop(a, r)) \/ RetDestroy(a))
MCSpec == MCInit /\ [][MCNext]_mcvars
MCLive == MCSpec /\ WF_mcvars(Progress) /\ WF_mcvars(Keep /\ now < MaxTime /\ Tick(now + 1, Strict))
(* an entry that is due, cancelled, or pushed is completed before time goes on *)
OnTime == \A i \in Ids : (ent[i].st = "wait" /\ ent[i].kind # "p" /\ busy = 0 /\ now > ent[i].due) => exit \/ \E j \in Ids : ent[j].st = "done"
Completes == \A i \in Ids : (ent[i].st = "cancelled" \/ (ent[i].st = "wait" /\ exit)) ~> ent[i].st = "done"
Destroyed == (ps[Main].s = "destroy") ~> (ps[Main].s = "idle")
=============================================================================
