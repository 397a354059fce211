----------------------------- MODULE AllocTrace -----------------------------
EXTENDS Alloc, TraceBase
TInit == TraceStart /\ Init0
Step(e) ==
    CASE e.e = "create"   -> Create(e.f, e.k, e.ar, e.lazy, e.args)
      [] e.e = "alloc"    -> Allocate(e.ar, e.n, e.b)
      [] e.e = "nomem"    -> NoMemory(e.ar)
      [] e.e = "argthrow" -> ArgThrows(e.f)
      [] e.e = "failed"   -> Failed(e.f)
      [] e.e = "created"  -> IF fr[e.f].k = "join" THEN Joining(e.f) ELSE Created(e.f)
      [] e.e = "start"    -> Start(e.f, e.al, e.loc)
      [] e.e = "park"     -> Park(e.f)
      [] e.e = "back"     -> Back(e.f)
      [] e.e = "end"      -> End(e.f)
      [] e.e = "left"     -> Left(e.f)
      [] e.e = "args"     -> ArgsGone(e.f)
      [] e.e = "drop"     -> Drop(e.f)
      [] e.e = "handed"   -> Handed(e.f)
      [] e.e = "free"     -> Free(e.ar, e.n, e.b)
      [] e.e = "quiet"    -> Quiet(Range(e.b))
      [] e.e = "finished" -> Finished(e.i)
      [] OTHER            -> FALSE
TNext == HasEvent /\ Step(Event1) /\ Consume
TSpec == TInit /\ [][TNext]_<<vars, tvars>>
=============================================================================
