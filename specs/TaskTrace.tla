----------------------------- MODULE TaskTrace -----------------------------
EXTENDS Task, TraceBase
TInit == TraceStart /\ Init0
Step(e) ==
    CASE e.e = "create" -> Create(e.a, e.t, e.h)
      [] e.e = "call" /\ e.op \in {"drop", "move"} -> CallOp(e.a, e.op, e.h, e.g, e.th)
      [] e.e = "call" /\ e.op = "kill" -> CallKill(e.a, e.c, e.th)
      [] e.e = "ret"    -> RetOp(e.a)
      [] e.e = "await"  -> Await(e.a, e.h, e.temp, e.th)
      [] e.e = "start"  -> Start(e.t, e.th)
      [] e.e = "hop"    -> Hop(e.t)
      [] e.e = "back"   -> Back(e.t, e.th)
      [] e.e = "park"   -> Park(e.t)
      [] e.e = "end"    -> End(e.t, e.v, e.exc)
      [] e.e = "left"   -> Left(e.t, e.th)
      [] e.e = "gone"   -> Gone(e.t, e.th)
      [] e.e = "res"    -> Result(e.a, e.t, e.v, e.exc, e.th)
      [] e.e = "quiesce" -> Quiescent(Range(e.susp), e.all)
      [] OTHER          -> FALSE
TNext ==
    \/ HasEvent /\ Step(Event1) /\ Consume
    \/ HasEvent /\ Silent /\ Stay
TSpec == TInit /\ [][TNext]_<<vars, tvars>>
=============================================================================
