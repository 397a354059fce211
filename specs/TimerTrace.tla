----------------------------- MODULE TimerTrace -----------------------------
EXTENDS Timer, TraceBase
TInit == TraceStart /\ Init
Step(e) ==
    CASE e.e = "call" /\ e.op = "sched"   -> CallSched(e.a, e.id, e.due, e.tok, e.th)
      [] e.e = "call" /\ e.op = "push"    -> CallPush(e.a, e.id, e.th)
      [] e.e = "call" /\ e.op = "empty"   -> CallEmpty(e.a, e.th)
      [] e.e = "call" /\ e.op = "stop"    -> CallStop(e.a, e.tok, e.th)
      [] e.e = "call" /\ e.op = "await"   -> CallAwait(e.a, e.due, e.tok, e.th)
      [] e.e = "call" /\ e.op = "destroy" -> CallDestroy(e.a, e.th)
      [] e.e = "fire" -> Fire(e.id, e.k, e.ok, e.th)
      [] e.e = "end"  -> End(e.id)
      [] e.e = "ret" /\ e.op = "stop"    -> RetStop(e.a, e.r)
      [] e.e = "ret" /\ e.op = "destroy" -> RetDestroy(e.a)
      [] e.e = "ret" /\ e.op \notin {"stop", "destroy"} -> RetOp(e.a, e.op, e.r)
      [] e.e = "quiesce" -> Quiescent
      [] OTHER           -> FALSE
TNext ==
    \/ HasEvent /\ "t" \in DOMAIN Event1 /\ now = Event1.t /\ Step(Event1) /\ Consume
    \/ HasEvent /\ Silent /\ Stay
    \/ HasEvent /\ "t" \in DOMAIN Event1 /\ Tick(Event1.t, Cfg.strict) /\ Stay
    \/ HasEvent /\ "t" \in DOMAIN Event1 /\ (\E i \in Ids : ent[i].due < Event1.t /\ Tick(ent[i].due, Cfg.strict)) /\ Stay
TSpec == TInit /\ [][TNext]_<<vars, tvars>>
=============================================================================
