----------------------------- MODULE LoopTrace -----------------------------
EXTENDS Loop, TraceBase
TInit == TraceStart /\ Init
Step(e) ==
    CASE e.e = "call" /\ e.op = "push"  -> CallPush(e.a, e.d, e.id)
      [] e.e = "call" /\ e.op = "empty" -> CallEmpty(e.a, e.d)
      [] e.e = "call" /\ e.op = "defer" -> CallDefer(e.a, e.d, e.id, e.last)
      [] e.e = "call" /\ e.op = "stop"  -> CallStop(e.a, e.d)
      [] e.e = "call" /\ e.op = "run"   -> CallRun(e.a, e.d, e.th, e.cur)
      [] e.e = "run"  -> Run(e.id, e.th, e.cur)
      [] e.e = "end"  -> End(e.id, e.thrown, e.cur)
      [] e.e = "ret" /\ e.op \in {"push", "stop"} -> RetOp(e.a, e.op)
      [] e.e = "ret" /\ e.op = "empty"   -> RetEmpty(e.a)
      [] e.e = "ret" /\ e.op = "defer"   -> RetDefer(e.a)
      [] e.e = "ret" /\ e.op = "handoff" -> RetHandoff(e.a)
      [] e.e = "ret" /\ e.op = "run"     -> RetRun(e.a, e.thrown, e.cur)
      [] e.e = "quiesce" -> Quiescent
      [] OTHER           -> FALSE
TNext ==
    \/ HasEvent /\ Step(Event1) /\ Consume
    \/ HasEvent /\ Silent /\ Stay
TSpec == TInit /\ [][TNext]_<<vars, tvars>>
=============================================================================
