----------------------------- MODULE ScopeTrace -----------------------------
EXTENDS Scope, TraceBase
TInit == TraceStart /\ Init0
Step(e) ==
    CASE e.e = "call" /\ e.op = "launch" -> CallLaunch(e.a, e.t, e.sync, e.th)
      [] e.e = "call" /\ e.op = "join"   -> CallJoin(e.a, e.th)
      [] e.e = "call" /\ e.op = "fut"    -> CallFut(e.a, e.f, e.th)
      [] e.e = "call" /\ e.op = "query"  -> CallQuery(e.a)
      [] e.e = "call" /\ e.op = "poll"   -> CallPoll(e.a, e.f)
      [] e.e = "call" /\ e.op = "get"    -> CallGet(e.a, e.f)
      [] e.e = "ret" /\ e.op = "get"    -> RetGet(e.a, e.v)
      [] e.e = "start" -> TaskStart(e.t, e.th)
      [] e.e = "end"   -> TaskEnd(e.t, e.th)
      [] e.e = "ret" /\ e.op = "launch" -> RetLaunch(e.a)
      [] e.e = "ret" /\ e.op = "fut"    -> RetFut(e.a)
      [] e.e = "ret" /\ e.op = "query"  -> RetQuery(e.a, e.v)
      [] e.e = "ret" /\ e.op = "poll"   -> RetPoll(e.a, e.v)
      [] e.e = "res"     -> Resume(e.a, e.th, e.v)
      [] e.e = "susp"    -> SuspOk(ps[e.a]) /\ UNCHANGED vars
      [] e.e = "quiesce" -> Quiescent(Range(e.susp), Range(e.run))
      [] OTHER           -> FALSE
TNext ==
    \/ HasEvent /\ Step(Event1) /\ Consume
    \/ HasEvent /\ (\E a \in Actors : Silent(a)) /\ Stay
TSpec == TInit /\ [][TNext]_<<vars, tvars>>
=============================================================================
