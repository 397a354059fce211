----------------------------- MODULE DetachedMC -----------------------------
EXTENDS Detached
CONSTANTS Kinds, Budget, Threads
VARIABLE left
mcvars == <<vars, left>>
Own(a) == {h \in Slots : h \div 10 = a}
MCInit == Init0 /\ left = [a \in Actors |-> Budget]
Use(a) == left[a] > 0 /\ left' = [left EXCEPT ![a] = @ - 1]
Keep == UNCHANGED left
NextTask == {t \in Tasks : tk[t].st = "none" /\ \A u \in Tasks : u < t => tk[u].st # "none"}
(* several clients may copy from the handle of another one as long as that one leaves it alone *)
Quiet(h) == \A a \in Actors : ps[a].s = "op" => ps[a].h # h /\ ps[a].g # h
Returns(a) == RetCreate(a) \/ RetOp(a) \/ (\E v \in BOOLEAN : RetPoll(a, v)) \/ (\E v \in {0, 1}, x \in BOOLEAN : RetGet(a, v, x))
Body(t) == \/ \E th \in Threads : Start(t, th) \/ Back(t, th) \/ Gone(t, th) \/ Handled(t, 1, th)
           \/ End(t, 0) \/ SilentTask(t)
MCNext ==
    \/ \E a \in Clients :
        /\ Use(a)
        /\ \/ \E t \in NextTask, k \in Kinds, h \in Own(a) : CallCreate(a, t, k, h, a)
           \/ \E h \in Own(a), op \in {"start", "drop"} : hd[h] # 0 /\ tk[hd[h]].k = "lazy" /\ Quiet(h) /\ CallOp(a, op, h, h, a)
           \/ \E h \in Own(a), g \in Slots, op \in {"copy", "move"} :
                hd[g] # 0 /\ Quiet(h) /\ Quiet(g) /\ (\A b \in Actors : ps[b].s = "create" => ps[b].t # hd[g]) /\ CallOp(a, op, h, g, a)
           \/ \E t \in Tasks : tk[t].st # "none" /\ tk[t].k = "future" /\ (CallPoll(a, t) \/ CallGet(a, t))
    \/ Keep /\ \E a \in Clients : Silent(a) \/ Returns(a)
    \/ Keep /\ \E t \in Tasks : Body(t)
    \/ \E t \in Tasks : Use(t) /\ (Hop(t) \/ Throw(t, 1) \/ \E p \in 0..2 : SetPolicy(t, p))
MCSpec == MCInit /\ [][MCNext]_mcvars
MCLive == MCSpec /\ \A a \in Clients : WF_mcvars(Keep /\ (Silent(a) \/ Returns(a)))
                 /\ \A t \in Tasks : WF_mcvars(Keep /\ Body(t))
(* an exception nobody catches ends the process *)
Dead == \E t \in Tasks : tk[t].st = "thrown" /\ (tk[t].k = "launch" \/ (tk[t].k # "future" /\ tk[t].pol = Terminate))
Completes == \A t \in Tasks : tk[t].st = "starting" ~> (tk[t].st = "over" \/ Dead)
Freed == \A t \in Tasks : tk[t].alive = "dying" ~> tk[t].alive = "gone"
FutureComes == \A a \in Clients : ps[a].s = "get" ~> (ps[a] = Idle \/ Dead)
=============================================================================
