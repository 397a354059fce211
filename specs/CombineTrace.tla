---------------------------- MODULE CombineTrace ----------------------------
EXTENDS Combine, TraceBase
TInit == TraceStart /\ InitWith(Cfg.kind, Cfg.args, Cfg.ins)
Step(e) ==
    CASE e.e = "call" /\ e.op = "settle"  -> CallSettle(e.a, e.i, e.k, e.v, e.th)
      [] e.e = "call" /\ e.op = "combine" -> CallCombine(e.a, e.th)
      [] e.e = "call" /\ e.op = "await"   -> CallAwait(e.a, e.th)
      [] e.e = "call" /\ e.op = "get"     -> CallGet(e.a)
      [] e.e = "call" /\ e.op = "tryget"  -> CallTryGet(e.a)
      [] e.e = "res"     -> Resume(e.a, e.k, e.v, e.th)
      [] e.e = "ret" /\ e.op = "settle"  -> RetSettle(e.a, e.r)
      [] e.e = "ret" /\ e.op = "combine" -> RetCombine(e.a)
      [] e.e = "ret" /\ e.op = "look"    -> RetLook(e.a, e.k, e.v)
      [] e.e = "susp"    -> SuspOk(ps[e.a]) /\ UNCHANGED vars
      [] e.e = "quiesce" -> Quiescent(Range(e.susp))
      [] OTHER           -> FALSE
TNext ==
    \/ HasEvent /\ Step(Event1) /\ Consume
    \/ HasEvent /\ (\E a \in Actors : Silent(a)) /\ Stay
TSpec == TInit /\ [][TNext]_<<vars, tvars>>
=============================================================================
