------------------------------ MODULE GenTrace ------------------------------
EXTENDS Gen, TraceBase
TInit == TraceStart /\ Init0
Step(e) ==
    CASE e.e = "create" -> Create(e.a, e.g, e.h, e.mapped)
      [] e.e = "call" /\ e.op \in {"drop", "move", "swap"} -> CallOp(e.a, e.op, e.h, e.g, e.th)
      [] e.e = "call" /\ e.op = "kill" -> CallKill(e.a, e.c, e.th)
      [] e.e = "ret"    -> RetOp(e.a)
      [] e.e = "step"   -> CallStep(e.a, e.op, e.h, e.th)
      [] e.e = "res"    -> RetStep(e.a, e.r, e.v, e.th)
      [] e.e = "deref"  -> Deref(e.a, e.h, e.v)
      [] e.e = "set"    -> SetVal(e.a, e.h, e.v)
      [] e.e = "isend"  -> IsEnd(e.a, e.h, e.v)
      [] e.e = "start"  -> Start(e.g, e.th)
      [] e.e = "see"    -> See(e.g, e.v, e.th)
      [] e.e = "hop"    -> Hop(e.g)
      [] e.e = "back"   -> Back(e.g, e.th)
      [] e.e = "park"   -> Park(e.g)
      [] e.e = "yield"  -> Yield(e.g, e.v)
      [] e.e = "map"    -> Map(e.g, e.v, e.w)
      [] e.e = "mapthrow" -> MapThrow(e.g, e.v)
      [] e.e = "end"    -> End(e.g)
      [] e.e = "throw"  -> Throw(e.g, e.v)
      [] e.e = "left"   -> Left(e.g, e.th)
      [] e.e = "gone"   -> Gone(e.g, e.th)
      [] e.e = "quiesce" -> Quiescent(Range(e.susp), e.all)
      [] OTHER          -> FALSE
TNext == HasEvent /\ Step(Event1) /\ Consume
TSpec == TInit /\ [][TNext]_<<vars, tvars>>
=============================================================================
