---------------------------- MODULE PtrTagTrace -----------------------------
EXTENDS PtrTag, TraceBase
TInit == TraceStart /\ Init0
Step(e) ==
    CASE e.e = "accepts" -> Accepts(e.al, e.t, e.v)
      [] e.e = "pack"    -> Pack(e.i, e.al, e.p, e.t, Range(e.same))
      [] e.e = "unpack"  -> Unpack(e.i, e.p, e.t)
      [] e.e = "tag"     -> GetTag(e.i, e.m, e.t)
      [] e.e = "least"   -> Least(Range(e.als), e.m)
      [] OTHER           -> FALSE
TNext == HasEvent /\ Step(Event1) /\ Consume
TSpec == TInit /\ [][TNext]_<<vars, tvars>>
=============================================================================
