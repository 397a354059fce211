---------------------------- MODULE TsQueueTrace ----------------------------
EXTENDS TsQueue, TraceBase
TInit == TraceStart /\ InitWith([k \in Qs |-> IF k \in DOMAIN Cfg.q THEN Cfg.q[k] ELSE <<>>])
Step(e) ==
    CASE e.e = "call" /\ e.op = "push" -> CallPush(e.a, e.k, e.v)
      [] e.e = "call" /\ e.op = "pop"  -> CallPop(e.a, e.k)
      [] e.e = "call" /\ e.op = "copy" -> CallCopy(e.a, e.k, e.f)
      [] e.e = "call" /\ e.op = "move" -> CallMove(e.a, e.k, e.f)
      [] e.e = "ret"                   -> Ret(e.a, e.r)
      [] e.e = "quiesce"               -> Quiescent
      [] OTHER                         -> FALSE
TNext ==
    \/ HasEvent /\ Step(Event1) /\ Consume
    \/ HasEvent /\ (\E a \in Actors : Silent(a)) /\ Stay
TSpec == TInit /\ [][TNext]_<<vars, tvars>>
=============================================================================
