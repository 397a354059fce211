------------------------------- MODULE TaskMC -------------------------------
EXTENDS Task
CONSTANTS Budget, Threads
VARIABLE left
mcvars == <<vars, left>>
Own(a) == IF a \in Tasks THEN {h \in Slots \cap Tasks : tk[h].by = a} ELSE {h \in Slots : h \div 10 = a}
MCInit == Init0 /\ left = [a \in Actors |-> Budget]
Use(a) == left[a] > 0 /\ left' = [left EXCEPT ![a] = @ - 1]
Keep == UNCHANGED left
NextTask == {t \in Tasks : tk[t].st = "none" /\ \A u \in Tasks : u < t => tk[u].st # "none"}
(* A task may be destroyed before it starts, when it is done, or when it can not go on. *)
RECURSIVE Parked(_)
Parked(t) == tk[t].st = "parked" \/ (ps[t].s = "await" /\ tk[t].st = "run" /\ Parked(ps[t].t))
MayDrop(t) == tk[t].st \in {"made", "done"} \/ Parked(t)
Body(t) == \/ \E th \in Threads : Start(t, th) \/ Back(t, th) \/ Left(t, th) \/ Gone(t, th)
           \/ End(t, t, FALSE) \/ LocalsDie(t) \/ TempDies(t)
Goes(a) == RetOp(a) \/ TempDrop(a) \/ \E t \in Tasks, x \in BOOLEAN, th \in Threads : Result(a, t, t, x, th)
Thread(a) == IF a \in Tasks THEN tk[a].th ELSE a
MCNext ==
    \/ \E a \in Actors :
        /\ Use(a)
        /\ \/ \E t \in NextTask : \E h \in (IF a \in Tasks THEN {t} ELSE Own(a)) : Create(a, t, h)
           \/ \E h \in Own(a) : hd[h] # 0 /\ MayDrop(hd[h]) /\ CallOp(a, "drop", h, h, Thread(a))
           \/ \E h, g \in Own(a) : hd[g] # 0 /\ (hd[h] # 0 => MayDrop(hd[h])) /\ CallOp(a, "move", h, g, Thread(a))
           \/ \E h \in Own(a), temp \in BOOLEAN : Await(a, h, temp, Thread(a))
    \/ \E c \in Clients : Use(0) /\ ps[c].s = "await" /\ Parked(ps[c].t) /\ CallKill(0, c, 0)
    \/ \E h \in Slots \ Tasks : Use(0) /\ hd[h] # 0 /\ ps[h \div 10].s # "await" /\ MayDrop(hd[h]) /\ CallOp(0, "drop", h, h, 0)
    \/ Keep /\ \E a \in Actors : Goes(a)
    \/ Keep /\ \E t \in Tasks : Body(t)
    \/ \E t \in Tasks : Use(t) /\ (Hop(t) \/ Park(t) \/ End(t, t, TRUE))
MCSpec == MCInit /\ [][MCNext]_mcvars
MCLive == MCSpec /\ \A a \in Actors : WF_mcvars(Keep /\ Goes(a))
                 /\ \A t \in Tasks : WF_mcvars(Keep /\ Body(t))
(* Nobody waits for ever, except for something that can not go on. *)
Comes == \A a \in Clients : ps[a].s = "await" ~> (ps[a].s # "await" \/ Parked(ps[a].t))
Freed == \A t \in Tasks : tk[t].alive = "dying" ~> tk[t].alive = "gone"
Frame == \A t \in Tasks : (tk[t].alive = "yes" /\ ~\E h \in Slots : hd[h] = t) => \E a \in Actors : ps[a].s = "await" /\ ps[a].t = t /\ ps[a].temp
=============================================================================
