------------------------------- MODULE GuardsMC ------------------------------
EXTENDS Guards
Next ==
    \/ \E s \in Scopes : Open(s) \/ Leave(s) \/ Left(s)
    \/ \E i \in Items : \/ \E s \in Scopes, o, e \in BOOLEAN : New(i, s, o, e, 0)
                        \/ \E b \in BOOLEAN : Set(i, b)
                        \/ (it[i].v = 0 /\ SetFunction(i, 1))
                        \/ Run(i, it[i].v) \/ RunEnd(i) \/ Skip(i)
Spec == Init0 /\ [][Next]_vars
Live == Spec /\ (\A s \in Scopes : WF_vars(Left(s))) /\ \A i \in Items : WF_vars(Run(i, it[i].v) \/ Skip(i)) /\ WF_vars(RunEnd(i))
(* whatever happens, a scope that is being left comes to its end and everything in it had its turn *)
Ends == \A s \in Scopes : sc[s].st = "leaving" ~> sc[s].st = "left"
=============================================================================
