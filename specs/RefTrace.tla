------------------------------ MODULE RefTrace ------------------------------
EXTENDS Ref, TraceBase
TInit == TraceStart /\ Init
Step(e) ==
    CASE e.e = "call" -> Call(e.a, e.op, e.d, e.s, e.o)
      [] e.e = "ret"  -> Ret(e.a, e.r)
      [] e.e = "drop" -> Drop(e.o, e.a)
      [] e.e = "dropend" -> DropEnd(e.o)
      [] e.e = "quiesce" -> Quiescent
      [] OTHER           -> FALSE
TNext ==
    \/ HasEvent /\ Step(Event1) /\ Consume
    \/ HasEvent /\ Silent /\ Stay
TSpec == TInit /\ [][TNext]_<<vars, tvars>>
=============================================================================
