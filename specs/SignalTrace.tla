------------------------------ MODULE SignalTrace ------------------------------
EXTENDS Signal, TraceBase
TInit == TraceStart /\ Init
Call(e) ==
    CASE e.op = "connect" -> CallConnect(e.o, e.s, e.x, e.front = 1)
      [] e.op = "emit" -> CallEmit(e.o, e.s)
      [] e.op \in {"remove", "owns", "disconnect", "valid"} -> CallSlot(e.o, e.op, e.s, e.x)
      [] e.op \in {"size", "empty"} -> CallSize(e.o, e.op, e.s)
      [] e.op = "shrink" -> CallShrink(e.o)
      [] e.op = "move" -> CallMove(e.o, e.s, e.x)
      [] e.op = "destroy" -> CallDestroy(e.o, e.s)
      [] OTHER -> FALSE
Step(e) ==
    CASE e.e = "call" -> Call(e)
      [] e.e = "ret"  -> Ret(e.o, e.op, e.r)
      [] e.e = "fire" -> Fire(e.o, e.x, e.arg)
      [] e.e = "fend" -> FireEnd(e.o, e.x, e.t = 1)
      [] e.e = "drop" -> Drop(e.x)
      [] e.e = "quiesce" -> Quiescent
      [] OTHER        -> FALSE
TNext ==
    \/ HasEvent /\ Step(Event1) /\ Consume
    \/ HasEvent /\ Silent /\ Stay
TSpec == TInit /\ [][TNext]_<<vars, tvars>>
=============================================================================
