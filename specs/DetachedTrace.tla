--------------------------- MODULE DetachedTrace ---------------------------
EXTENDS Detached, TraceBase
TInit == TraceStart /\ Init0
Step(e) ==
    CASE e.e = "call" /\ e.op = "create" -> CallCreate(e.a, e.t, e.k, e.h, e.th)
      [] e.e = "call" /\ e.op \in {"start", "drop", "copy", "move"} -> CallOp(e.a, e.op, e.h, e.g, e.th)
      [] e.e = "call" /\ e.op = "poll"   -> CallPoll(e.a, e.t)
      [] e.e = "call" /\ e.op = "get"    -> CallGet(e.a, e.t)
      [] e.e = "ret" /\ e.op = "create"  -> RetCreate(e.a)
      [] e.e = "ret" /\ e.op = "op"      -> RetOp(e.a)
      [] e.e = "ret" /\ e.op = "poll"    -> RetPoll(e.a, e.v)
      [] e.e = "ret" /\ e.op = "get"     -> RetGet(e.a, e.v, e.exc)
      [] e.e = "start"   -> Start(e.t, e.th)
      [] e.e = "pol"     -> SetPolicy(e.t, e.p)
      [] e.e = "hop"     -> Hop(e.t)
      [] e.e = "back"    -> Back(e.t, e.th)
      [] e.e = "throw"   -> Throw(e.t, e.v)
      [] e.e = "end"     -> End(e.t, e.v)
      [] e.e = "handled" -> Handled(e.t, e.v, e.th)
      [] e.e = "gone"    -> Gone(e.t, e.th)
      [] e.e = "terminated" -> Terminated
      [] e.e = "quiesce" -> Quiescent(e.all)
      [] OTHER           -> FALSE
TNext ==
    \/ HasEvent /\ Step(Event1) /\ Consume
    \/ HasEvent /\ (\/ \E a \in Actors : Silent(a)
                    \/ \E t \in Tasks : SilentTask(t)) /\ Stay
TSpec == TInit /\ [][TNext]_<<vars, tvars>>
=============================================================================
