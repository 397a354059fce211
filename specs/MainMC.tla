-------------------------------- MODULE MainMC -------------------------------
EXTENDS Main
VARIABLE pushed
MInit == Init0 /\ pushed = {}
Keep == UNCHANGED pushed
Next ==
    \/ Keep /\ (Call \/ Start(MainTh, TRUE, TRUE) \/ (\E h \in BOOLEAN : Hop(h)))
    \/ Keep /\ \E th \in Threads : Back(th, th = MainTh) \/ Left(th)
    \/ Keep /\ \E id \in Tasks : Run(id, MainTh, TRUE) \/ Ran(id)
    \/ Keep /\ \E v \in Results : End(v) \/ Return(v, MainTh, FALSE)
    \/ Keep /\ Silent
    \/ \E id \in Tasks \ pushed, th \in Threads :
          /\ (co.st = "run" /\ co.th = th) \/ (run \in Tasks /\ th = MainTh)
          /\ pushed' = pushed \cup {id} /\ Push(id, th)
    \/ Finished /\ Keep
Spec == MInit /\ [][Next]_<<vars, pushed>>
Progress ==
    /\ WF_vars(Call) /\ WF_vars(Start(MainTh, TRUE, TRUE)) /\ WF_vars(\E th \in Threads : Left(th))
    /\ WF_vars(\E th \in Threads : Back(th, th = MainTh))
    /\ WF_vars(Silent)
    /\ WF_vars(\E id \in Tasks : Run(id, MainTh, TRUE)) /\ WF_vars(\E id \in Tasks : Ran(id))
    /\ WF_vars(\E v \in Results : Return(v, MainTh, FALSE))
Live == Spec /\ Progress
(* main returns when async_main is over, and a coroutine that wants to go on in main does *)
Returns == co.st = "over" ~> m = "back"
Continues == co.st = "queued" ~> co.st = "run"
=============================================================================
