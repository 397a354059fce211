----------------------------- MODULE GuardTrace -----------------------------
EXTENDS Guard, TraceBase
TInit == TraceStart /\ Init
Step(e) ==
    CASE e.e = "new"      -> New(e.i, e.m)
      [] e.e = "adopt"    -> Adopt(e.i, e.m)
      [] e.e = "scoped"   -> Scoped(e.i, e.m)
      [] e.e = "gtry"     -> GTry(e.i, e.v)
      [] e.e = "rtry"     -> RTry(e.m, e.v)
      [] e.e = "glock"    -> GLock(e.i)
      [] e.e = "gunlock"  -> GUnlock(e.i)
      [] e.e = "runlock"  -> RUnlock(e.m)
      [] e.e = "destroy"  -> Destroy(e.i)
      [] e.e = "mctor"    -> MoveCtor(e.j, e.i)
      [] e.e = "massign"  -> MoveAssign(e.j, e.i)
      [] e.e = "spawn"    -> Spawn(e.i, e.m)
      [] e.e = "wacq"     -> WAcq(e.i)
      [] e.e = "wrel"     -> WRel(e.i)
      [] e.e = "done"     -> Done(e.gm, e.gh, e.ml)
      [] OTHER            -> FALSE
TNext == HasEvent /\ Step(Event1) /\ Consume
TSpec == TInit /\ [][TNext]_<<vars, tvars>>
=============================================================================
