------------------------------- MODULE PoolMC -------------------------------
EXTENDS Pool
CONSTANTS Clients, Sizes, Budget, Threads
VARIABLES left
mcvars == <<vars, left>>
MCInit == (\E sz \in [Pools -> Sizes] : InitWith(sz)) /\ left = [a \in Actors |-> IF a \in Ids THEN 1 ELSE Budget]
Use(a) == left[a] > 0 /\ left' = [left EXCEPT ![a] = @ - 1]
Keep == UNCHANGED left
ThOf(a) == IF a \in Ids THEN task[a].th ELSE a
NextId == {i \in Ids : task[i].st = "none" /\ (\A a \in Actors : ~(ps[a].s = "push" /\ ps[a].id = i)) /\ (\A j \in Ids : j < i => task[j].st # "none")}
(* clients resize only pools; symmetric use of worker threads: pool p owns Threads[p] *)
(* nobody uses a pool that is being destroyed, except its own tasks *)
Valid(a, p) == {b \in Actors : ps[b].s = "destroy" /\ ps[b].p = p} = {} \/ (a \in Ids /\ task[a].p = p)
MCNext ==
    \/ \E a \in Actors :
        \/ Use(a) /\ \E p \in Pools : Valid(a, p) /\
           (\/ \E id \in NextId : CallPush(a, p, id, ThOf(a))
            \/ a \in Clients /\ \E n \in Sizes : CallResize(a, p, n, ThOf(a))
            \/ a \in Clients /\ {b \in Actors \ {a} : ps[b].s # "idle" /\ ps[b].p = p} = {} /\ CallDestroy(a, p, ThOf(a)))
        \/ Keep /\ Silent(a)
        \/ Keep /\ ((\E r \in {0, 1} : RetPush(a, r)) \/ RetResize(a) \/ RetDestroy(a))
    \/ Keep /\ \E id \in Ids, p \in Pools : \E th \in Threads : th \div 10 = p /\ (\A t \in Threads : t < th /\ t \div 10 = p => OnThread(t) # {}) /\ Run(id, th, p)
    \/ Keep /\ \E id \in Ids : End(id)
RunSome == Keep /\ \E id \in Ids, p \in Pools, th \in Threads : th \div 10 = p /\ Run(id, th, p)
MCSpec == MCInit /\ [][MCNext]_mcvars
MCLive == MCSpec /\ WF_mcvars(RunSome) /\ (\A a \in Actors : WF_mcvars(Keep /\ Silent(a)) /\ WF_mcvars(Keep /\ ((\E r \in {0, 1} : RetPush(a, r)) \/ RetResize(a) \/ RetDestroy(a)))) /\ \A id \in Ids : WF_mcvars(Keep /\ End(id))
ResizeEnds == \A a \in Clients : ps[a].s \in {"resize", "destroy"} ~> ps[a] = Idle
AllRun == \A i \in Ids : task[i].st = "acc" ~> task[i].st = "done" 
NoneWithoutWorkers == \A p \in Pools : (size[p] = 0 /\ Resizing(p) = {}) => Open(p) = {}
=============================================================================
