------------------------------- MODULE AllocMC -------------------------------
EXTENDS Alloc
Fresh == CHOOSE b \in 1..(Cardinality(Frames) + 1) : \A x \in blk : x.b # b
Next ==
    \/ \E f \in Frames, k \in Kinds, a \in Arenas, lazy \in BOOLEAN :
          /\ k = "own" => lazy
          /\ k \in {"launch", "scope", "join"} => ~lazy
          /\ Create(f, k, a, lazy, k # "join")
    \/ \E a \in Arenas : Allocate(a, 1, Fresh) \/ NoMemory(a)
    \/ \E f \in Frames : \/ ArgThrows(f) \/ Failed(f) \/ Park(f) \/ Back(f) \/ End(f) \/ Left(f) \/ Drop(f) \/ Handed(f) \/ ArgsGone(f) \/ Joining(f)
                         \/ (fr[f].k # "join" /\ (Start(f, TRUE, TRUE) \/ Start(f, TRUE, FALSE)))
    \/ \E f \in Frames : fr[f].k # "join" /\ fr[f].lazy /\ Created(f)
    \/ \E x \in blk : Free(x.a, x.n, x.b)
    \/ Quiet({x.b : x \in blk}) \/ Finished(0)
Spec == Init0 /\ [][Next]_vars
(* every coroutine that is over gives its memory back *)
Live == Spec /\ \A f \in Frames : WF_vars(Left(f) \/ ArgsGone(f) \/ (fr[f].k # "join" /\ Created(f)))
             /\ WF_vars(\E x \in blk : Free(x.a, x.n, x.b))
Returned == \A f \in Frames : (fr[f].st = "dying" \/ (fr[f].k \in {"launch", "scope"} /\ fr[f].st = "ended")) ~> fr[f].st = "gone"
=============================================================================
