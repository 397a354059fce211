------------------------------ MODULE MainTrace ------------------------------
EXTENDS Main, TraceBase
TInit == TraceStart /\ Init0
Step(e) ==
    CASE e.e = "call"  -> Call
      [] e.e = "start" -> Start(e.th, e.cur, e.args)
      [] e.e = "hop"   -> Hop(e.home)
      [] e.e = "back"  -> Back(e.th, e.cur)
      [] e.e = "push"  -> Push(e.id, e.th)
      [] e.e = "run"   -> Run(e.id, e.th, e.cur)
      [] e.e = "ran"   -> Ran(e.id)
      [] e.e = "end"   -> End(e.v)
      [] e.e = "left"  -> Left(e.th)
      [] e.e = "ret"   -> Return(e.v, e.th, e.cur)
      [] e.e = "finished" -> Finished
      [] OTHER         -> FALSE
TNext == (HasEvent /\ Step(Event1) /\ Consume) \/ (HasEvent /\ Silent /\ Stay)
TSpec == TInit /\ [][TNext]_<<vars, tvars>>
=============================================================================
