------------------------------ MODULE StackMC ------------------------------
EXTENDS Stack
CONSTANT Budget
Next == \E c \in Co :
    \/ Start(c) \/ Resume(c) \/ Finish(c) \/ Again(c)
    \/ n[c] < Budget /\ (Suspend(c) \/ \E d \in Co \ {c} : Await(c, d))
Spec == Init /\ [][Next]_vars
=============================================================================
