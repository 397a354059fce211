----------------------------- MODULE PoolTrace -----------------------------
EXTENDS Pool, TraceBase
TInit == TraceStart /\ InitWith(Cfg.sizes)
Step(e) ==
    CASE e.e = "call" /\ e.op = "push"    -> CallPush(e.a, e.p, e.id, e.th)
      [] e.e = "call" /\ e.op = "empty"   -> CallPushEmpty(e.a, e.p, e.th)
      [] e.e = "call" /\ e.op = "size"    -> CallSize(e.a, e.p, e.th)
      [] e.e = "call" /\ e.op = "resize"  -> CallResize(e.a, e.p, e.n, e.th)
      [] e.e = "call" /\ e.op = "destroy" -> CallDestroy(e.a, e.p, e.th)
      [] e.e = "run"  -> Run(e.id, e.th, e.cur)
      [] e.e = "end"  -> End(e.id)
      [] e.e = "ret" /\ e.op = "push"    -> RetPush(e.a, e.r)
      [] e.e = "ret" /\ e.op = "empty"   -> RetPushEmpty(e.a, e.r)
      [] e.e = "ret" /\ e.op = "size"    -> RetSize(e.a, e.r)
      [] e.e = "ret" /\ e.op = "resize"  -> RetResize(e.a)
      [] e.e = "ret" /\ e.op = "destroy" -> RetDestroy(e.a)
      [] e.e = "quiesce" -> Quiescent
      [] OTHER           -> FALSE
TNext ==
    \/ HasEvent /\ Step(Event1) /\ Consume
    \/ HasEvent /\ (\E a \in Actors : Silent(a)) /\ Stay
TSpec == TInit /\ [][TNext]_<<vars, tvars>>
=============================================================================
