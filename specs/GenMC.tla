------------------------------- MODULE GenMC -------------------------------
EXTENDS Gen
CONSTANTS Budget, Threads
VARIABLE left
mcvars == <<vars, left>>
Own(a) == {h \in Slots : h \div 10 = a}
MCInit == Init0 /\ left = [a \in Clients \cup Gens |-> Budget]
Use(a) == left[a] > 0 /\ left' = [left EXCEPT ![a] = @ - 1]
Keep == UNCHANGED left
NextGen == {g \in Gens : gn[g].st = "none" /\ \A u \in Gens : u < g => gn[u].st # "none"}
Body(g) == \/ \E th \in Threads : Start(g, th) \/ Back(g, th) \/ Left(g, th) \/ Gone(g, th) \/ \E v \in {0, 1, 2} : See(g, v, th)
           \/ End(g) \/ \E v, w \in {0, 1, 2} : Map(g, v, w)
Goes(a) == RetOp(a) \/ \E r \in {"val", "end", "exc"}, v \in {0, 1}, th \in Threads : RetStep(a, r, v, th)
MCNext ==
    \/ \E a \in Clients : a # 0 /\ Use(a) /\
        \/ \E g \in NextGen, h \in Own(a), m \in BOOLEAN : Create(a, g, h, m)
        \/ \E h \in Own(a) : hd[h] # 0 /\ CallOp(a, "drop", h, h, a)
        \/ \E h, g \in Own(a), op \in {"move", "swap"} : CallOp(a, op, h, g, a)
        \/ \E h \in Own(a), op \in {"begin", "next"} : CallStep(a, op, h, a)
        \/ \E h \in Own(a) : SetVal(a, h, 2)
    \/ \E c \in Clients : Use(0) /\ ps[c].s = "step" /\ ps[c].g # 0 /\ gn[ps[c].g].st = "parked" /\ CallKill(0, c, 0)
    \/ \E h \in Slots : Use(0) /\ hd[h] # 0 /\ ps[h \div 10].s # "step" /\ CallOp(0, "drop", h, h, 0)
    \/ Keep /\ \E a \in Clients : Goes(a)
    \/ Keep /\ \E g \in Gens : Body(g)
    \/ \E g \in Gens : Use(g) /\ (Hop(g) \/ Park(g) \/ Throw(g, 1) \/ Yield(g, 1) \/ MapThrow(g, 1))
MCSpec == MCInit /\ [][MCNext]_mcvars
MCLive == MCSpec /\ \A a \in Clients : WF_mcvars(Keep /\ Goes(a))
                 /\ \A g \in Gens : WF_mcvars(Keep /\ Body(g))
Comes == \A a \in Clients : ps[a].s = "step" ~> (ps[a].s # "step" \/ (ps[a].g # 0 /\ gn[ps[a].g].st = "parked"))
Freed == \A g \in Gens : gn[g].alive = "dying" ~> gn[g].alive = "gone"
=============================================================================
