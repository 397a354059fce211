---------------------------- MODULE ChannelTrace ----------------------------
EXTENDS Channel, TraceBase
TInit == TraceStart /\ Init
Step(e) ==
    CASE e.e = "call" /\ e.op = "read"  -> CallRead(e.a, e.d, e.th, e.c)
      [] e.e = "call" /\ e.op = "write" -> CallWrite(e.a, e.v, e.d, e.th, e.c)
      [] e.e = "call" /\ e.op \in {"tryr", "tryw"} -> CallTry(e.a, e.op, e.v, e.th)
      [] e.e = "call" /\ e.op = "close" -> CallClose(e.a, e.th)
      [] e.e = "call" /\ e.op = "query" -> CallQuery(e.a)
      [] e.e = "res"                    -> Resume(e.a, e.r, e.th, e.c)
      [] e.e = "ret" /\ e.op \in {"tryr", "tryw"} -> RetTry(e.a, e.r)
      [] e.e = "ret" /\ e.op = "close"  -> RetClose(e.a)
      [] e.e = "ret" /\ e.op = "query"  -> RetQuery(e.a, e.v)
      [] e.e = "susp"    -> SuspOk(ps[e.a]) /\ UNCHANGED vars
      [] e.e = "quiesce"                -> Quiescent(Range(e.susp))
      [] OTHER                          -> FALSE
TNext ==
    \/ HasEvent /\ Step(Event1) /\ Consume
    \/ HasEvent /\ (\E a \in Actors : Silent(a)) /\ Stay
TSpec == TInit /\ [][TNext]_<<vars, tvars>>
=============================================================================
