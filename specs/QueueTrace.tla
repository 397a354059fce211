----------------------------- MODULE QueueTrace -----------------------------
EXTENDS Queue, TraceBase
TInit == TraceStart /\ InitWith([k \in Qs |-> NewQ(Cfg.max[k], Cfg.dd[k])])
Step(e) ==
    CASE e.e = "call" /\ e.op = "pop"   -> CallPop(e.a, e.k, e.d, e.th, e.c)
      [] e.e = "call" /\ e.op = "push"  -> CallPush(e.a, e.k, e.v, e.d, e.th, e.c)
      [] e.e = "call" /\ e.op \in {"trypop", "trypush"} -> CallTry(e.a, e.op, e.k, e.v, e.th)
      [] e.e = "call" /\ e.op = "tryfail" -> CallFail(e.a, e.k, e.th)
      [] e.e = "call" /\ e.op = "size"  -> CallSize(e.a, e.k)
      [] e.e = "call" /\ e.op = "empty" -> CallEmpty(e.a, e.k)
      [] e.e = "call" /\ e.op = "clear" -> CallClear(e.a, e.k, e.th)
      [] e.e = "call" /\ e.op = "move"  -> CallMove(e.a, e.k, e.f, e.th)
      [] e.e = "res"                    -> Resume(e.a, e.r, e.th, e.c)
      [] e.e = "ret"                    -> Ret(e.a, e.op, e.r)
      [] e.e = "susp"    -> SuspOk(ps[e.a]) /\ UNCHANGED vars
      [] e.e = "quiesce"                -> Quiescent(Range(e.susp))
      [] OTHER                          -> FALSE
TNext ==
    \/ HasEvent /\ Step(Event1) /\ Consume
    \/ HasEvent /\ (\E a \in Actors : Silent(a)) /\ Stay
TSpec == TInit /\ [][TNext]_<<vars, tvars>>
=============================================================================
