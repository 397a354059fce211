---------------------------- MODULE PromiseTrace ----------------------------
EXTENDS Promise, TraceBase
TInit == TraceStart /\ InitWith(Cfg.init)
Step(e) ==
    CASE e.e = "call" /\ e.op = "settle" -> CallSettle(e.a, e.k, e.v, e.th)
      [] e.e = "call" /\ e.op = "reg"    -> CallReg(e.a, e.id, e.kind, e.th)
      [] e.e = "call" /\ e.op = "await"  -> CallAwait(e.a, e.th)
      [] e.e = "call" /\ e.op = "get"    -> CallGet(e.a)
      [] e.e = "call" /\ e.op = "tget"   -> CallTGet(e.a, e.dl)
      [] e.e = "call" /\ e.op = "tryget" -> CallTryGet(e.a)
      [] e.e = "call" /\ e.op = "query"  -> CallQuery(e.a, e.k)
      [] e.e = "cb"      -> RunCb(e.id, e.k, e.v, e.th)
      [] e.e = "drop"    -> Drop(e.id)
      [] e.e = "res"     -> Resume(e.a, e.k, e.v, e.th)
      [] e.e = "ret" /\ e.op = "settle" -> RetSettle(e.a, e.r)
      [] e.e = "ret" /\ e.op = "reg"    -> RetReg(e.a)
      [] e.e = "ret" /\ e.op = "look"   -> RetLook(e.a, e.k, e.v)
      [] e.e = "ret" /\ e.op = "query"  -> RetQuery(e.a, e.r)
      [] e.e = "susp"    -> SuspOk(ps[e.a]) /\ UNCHANGED vars
      [] e.e = "quiesce" -> Quiescent(Range(e.susp))
      [] OTHER           -> FALSE
TNext ==
    \/ HasEvent /\ (IF "t" \in DOMAIN Event1 THEN now = Event1.t ELSE TRUE) /\ Step(Event1) /\ Consume
    \/ HasEvent /\ (\E a \in Actors : Silent(a)) /\ Stay
    \/ HasEvent /\ "t" \in DOMAIN Event1 /\ Tick(Event1.t) /\ Stay
TSpec == TInit /\ [][TNext]_<<vars, tvars>>
=============================================================================
