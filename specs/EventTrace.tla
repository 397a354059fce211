----------------------------- MODULE EventTrace -----------------------------
(* Recorded executions are behaviours of Event.tla: one initial state per trace, logged events drive the actions, the *)
(* internal steps are chosen by TLC.                                                                                  *)
EXTENDS Event, TraceBase

TInit ==
    /\ TraceStart
    /\ LET c == Cfg IN
       IF c.k = "latch" THEN InitWith("latch", c.init = 0, c.init) ELSE InitWith(c.k, c.init, 0)

Ret(e) == \/ ps[e.a].s = "op" /\ RetOp(e.a, e.v)
          \/ ps[e.a].s = "set" /\ kind # "latch" /\ RetSet(e.a, e.v)
          \/ kind = "latch" /\ RetDec(e.a)
Step(e) ==
    CASE e.e = "call" /\ e.op = "wait"    -> CallWait(e.a, e.d, e.th, e.c)
      [] e.e = "call" /\ e.op = "set"     -> CallSet(e.a, e.d, e.th)
      [] e.e = "call" /\ e.op = "dec"     -> CallDec(e.a, e.d, e.th)
      [] e.e = "call" /\ e.op \in {"reset", "isset", "isaw"} -> CallOp(e.a, e.op)
      [] e.e = "res"     -> Resume(e.a, e.th, e.c)
      [] e.e = "ret"     -> Ret(e)
      [] e.e = "susp"    -> SuspOk(ps[e.a]) /\ UNCHANGED vars
      [] e.e = "quiesce" -> Quiescent(Range(e.susp))
      [] OTHER           -> FALSE      \* race, crash, hang, stuck, exc
TNext ==
    \/ HasEvent /\ Step(Event1) /\ Consume
    \/ HasEvent /\ (\E a \in Actors : Silent(a)) /\ Stay
TSpec == TInit /\ [][TNext]_<<vars, tvars>>
=============================================================================
