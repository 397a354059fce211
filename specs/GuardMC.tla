------------------------------ MODULE GuardMC ------------------------------
EXTENDS Guard
Next ==
    \/ \E i \in Gs : \E m \in Ms : New(i, m) \/ Adopt(i, m) \/ Scoped(i, m)
    \/ \E i \in Gs : GLock(i) \/ GUnlock(i) \/ Destroy(i) \/ \E ok \in BOOLEAN : GTry(i, ok)
    \/ \E i, j \in Gs : MoveCtor(i, j) \/ MoveAssign(i, j)
    \/ \E m \in Ms : RUnlock(m) \/ \E ok \in BOOLEAN : RTry(m, ok)
    \/ \E i \in Ws : WAcq(i) \/ WRel(i) \/ \E m \in Ms : Spawn(i, m)
    \/ Done([i \in Gs |-> g[i].m], [i \in Gs |-> g[i].held], [m \in Ms |-> owner[m] # Free])
Spec == Init /\ [][Next]_vars
=============================================================================
