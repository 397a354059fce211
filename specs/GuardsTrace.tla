---------------------------- MODULE GuardsTrace ----------------------------
EXTENDS Guards, TraceBase
TInit == TraceStart /\ Init0
Step(e) ==
    CASE e.e = "open"   -> Open(e.s)
      [] e.e = "new"    -> New(e.i, e.s, FALSE, e.eng, e.v)
      [] e.e = "obj"    -> New(e.i, e.s, TRUE, FALSE, 0)
      [] e.e = "set"    -> Set(e.i, e.v)
      [] e.e = "is"     -> IsEngaged(e.i, e.v)
      [] e.e = "setfn"  -> SetFunction(e.i, e.v)
      [] e.e = "fn"     -> Function(e.i, e.v)
      [] e.e = "leave"  -> Leave(e.s)
      [] e.e = "run"    -> Run(e.i, e.v)
      [] e.e = "ran"    -> RunEnd(e.i)
      [] e.e = "left"   -> Left(e.s)
      [] e.e = "finished" -> AllLeft
      [] OTHER          -> FALSE
TNext ==
    \/ HasEvent /\ Step(Event1) /\ Consume
    \/ HasEvent /\ Silent /\ Stay
TSpec == TInit /\ [][TNext]_<<vars, tvars>>
=============================================================================
