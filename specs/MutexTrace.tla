----------------------------- MODULE MutexTrace -----------------------------
EXTENDS Mutex, TraceBase
TInit == TraceStart /\ InitWith(Cfg.locked, IF Cfg.locked THEN {0} ELSE {})
Step(e) ==
    CASE e.e = "call" /\ e.op = "lock"   -> CallLock(e.a, e.th)
      [] e.e = "call" /\ e.op = "unlock" -> CallUnlock(e.a, e.th)
      [] e.e = "call" /\ e.op = "try"    -> CallTry(e.a)
      [] e.e = "call" /\ e.op = "query"  -> CallQuery(e.a)
      [] e.e = "acq"     -> Acquired(e.a, e.th)
      [] e.e = "ret" /\ e.op = "unlock" -> RetUnlock(e.a)
      [] e.e = "ret" /\ e.op = "try"    -> RetTry(e.a, e.v)
      [] e.e = "ret" /\ e.op = "query"  -> RetQuery(e.a, e.v)
      [] e.e = "susp"    -> SuspOk(ps[e.a]) /\ UNCHANGED vars
      [] e.e = "quiesce" -> Quiescent(Range(e.susp))
      [] OTHER           -> FALSE
TNext ==
    \/ HasEvent /\ Step(Event1) /\ Consume
    \/ HasEvent /\ (\E a \in Actors : Silent(a)) /\ Stay
TSpec == TInit /\ [][TNext]_<<vars, tvars>>
=============================================================================
