------------------------------ MODULE EventMC ------------------------------
(* Exhaustive exploration of Event.tla: every actor performs up to Budget operations of any kind. *)
EXTENDS Event
CONSTANTS Kinds, Budget, InitCount
VARIABLE left      \* operations an actor may still start
mcvars == <<vars, left>>

MCInit ==
    /\ \E k \in Kinds : \E i \in BOOLEAN :
         InitWith(k, IF k = "latch" THEN InitCount = 0 ELSE i, IF k = "latch" THEN InitCount ELSE 0)
    /\ left = [a \in Actors |-> Budget]

Use(a) == left[a] > 0 /\ left' = [left EXCEPT ![a] = @ - 1]
Keep == UNCHANGED left

DecCall(a) == \* clients never decrement below zero, counting decrements under way
    LET under == {b \in Actors : ps[b].s = "dec"}
        RECURSIVE Sum(_)
        Sum(S) == IF S = {} THEN 0 ELSE LET b == CHOOSE x \in S : TRUE IN ps[b].n + Sum(S \ {b})
    IN \E n \in 1..3 : n + Sum(under) <= count /\ CallDec(a, n, a)

MCCall(a) ==
    /\ Use(a)
    /\ \/ \E d \in Disps : CallWait(a, d, a, 0)
       \/ kind # "latch" /\ \E d \in Disps : CallSet(a, d, a)
       \/ kind # "latch" /\ CallOp(a, "reset")
       \/ CallOp(a, "isset")
       \/ kind # "latch" /\ CallOp(a, "isaw")
       \/ kind = "latch" /\ DecCall(a)

MCNext == \E a \in Actors :
    \/ MCCall(a)
    \/ Silent(a) /\ Keep
    \/ \E th \in Actors, c \in Disps : Resume(a, th, c) /\ Keep
    \/ \E v \in BOOLEAN : (RetSet(a, v) \/ RetOp(a, v)) /\ Keep

MCSpec == MCInit /\ [][MCNext]_mcvars /\ \A a \in Actors :
    /\ WF_mcvars(Silent(a) /\ Keep)
    /\ WF_mcvars(\E th \in Actors, c \in Disps : Resume(a, th, c) /\ Keep)
    /\ WF_mcvars(\E v \in BOOLEAN : (RetSet(a, v) \/ RetOp(a, v)) /\ Keep)

(* everybody who is released continues, and every operation returns *)
Progress == \A a \in Actors :
    /\ (ps[a].s = "wait" /\ ps[a].ph \in {"ready", "rel"}) ~> (ps[a].s # "wait" \/ ps[a].ph \in {"called", "susp"})
    /\ (ps[a].s \in {"set", "op", "dec"}) ~> (ps[a] = Idle)
=============================================================================
