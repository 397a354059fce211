------------------------------- MODULE StopMC -------------------------------
EXTENDS Stop
CONSTANTS Budget, CbBudget
VARIABLES left, claimed   \* callbacks somebody deregisters
mcvars == <<vars, left, claimed>>
Own(a) == IF a \in Clients THEN {a} ELSE {0}
MCInit == \E z \in {0, 1} :
    /\ InitWith([i \in Slots |-> IF i = 0 THEN z ELSE 1], [i \in Slots |-> 1])
    /\ left = [a \in Actors |-> IF a \in Clients THEN Budget ELSE CbBudget]
    /\ claimed = {}
Use(a) == left[a] > 0 /\ left' = [left EXCEPT ![a] = @ - 1]
Keep == UNCHANGED <<left, claimed>>
ThOf(a) == IF a \in Clients THEN a ELSE cb[a].th
(* deregistering is exclusive, and not by the callback of a smaller number (no cycles of waits) *)
Free(a, c) == /\ \A b \in Actors : ~(ps[b].s = "dereg" /\ ps[b].c = c) /\ ~(ps[b].s = "reg" /\ ps[b].c = c)
              /\ (a \in Cbs => a <= c)
              /\ cb[c].st # "none" /\ c \notin claimed
NextCb == {c \in Cbs : cb[c].st = "none" /\ \A d \in Cbs : d < c => cb[d].st # "none"}
Returns(a) == RetSrc(a) \/ (\E v \in BOOLEAN : RetQuery(a, v) \/ RetReq(a, v)) \/ RetReg(a) \/ RetDereg(a)
MCNext ==
    \/ \E a \in Actors :
        \/ /\ Use(a) /\ UNCHANGED claimed
           /\ \/ \E i \in Own(a) : \/ CallReq(a, i, ThOf(a))
                                   \/ CallQuery(a, "tpos", i, i) \/ CallQuery(a, "treq", i, i)
                                   \/ a \in Clients /\ CallSrc(a, "none", i, i, 0)
                                   \/ a \in Clients /\ \E c \in NextCb : CallReg(a, c, i, ThOf(a))
              \/ a \in Clients /\ \E t \in States \ {1} : CallSrc(a, "new", a, a, t)
        \/ Keep /\ (Silent(a) \/ Returns(a))
    \/ \E a \in Actors, c \in Cbs : Use(a) /\ Free(a, c) /\ CallDereg(a, c, ThOf(a)) /\ claimed' = claimed \cup {c}
    \/ Keep /\ \E c \in Cbs : SilentCb(c) \/ End(c) \/ \E th \in Clients : Run(c, th)
MCSpec == MCInit /\ [][MCNext]_mcvars
MCLive == MCSpec /\ \A a \in Actors : WF_mcvars(Keep /\ (Silent(a) \/ Returns(a)))
                 /\ \A c \in Cbs : WF_mcvars(Keep /\ (SilentCb(c) \/ End(c) \/ \E th \in Clients : Run(c, th)))
Returned == \A a \in Clients : ps[a] # Idle ~> ps[a] = Idle
AllRun == \A c \in Cbs : (cb[c].st = "reg" /\ cb[c].t \in req) ~> cb[c].st \in {"done", "removed"}
=============================================================================
