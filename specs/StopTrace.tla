----------------------------- MODULE StopTrace -----------------------------
EXTENDS Stop, TraceBase
Fill(q) == [i \in Slots |-> IF i + 1 \in DOMAIN q THEN q[i + 1] ELSE 0]
TInit == TraceStart /\ InitWith(Fill(Cfg.src), Fill(Cfg.tok))
Step(e) ==
    CASE e.e = "call" /\ e.op = "src"   -> CallSrc(e.a, e.k, e.i, e.j, e.t)
      [] e.e = "tok"                    -> TokOp(e.a, e.k, e.i, e.j)
      [] e.e = "call" /\ e.op = "query" -> CallQuery(e.a, e.k, e.i, e.j)
      [] e.e = "call" /\ e.op = "req"   -> CallReq(e.a, e.i, e.th)
      [] e.e = "call" /\ e.op = "reg"   -> CallReg(e.a, e.c, e.i, e.th)
      [] e.e = "call" /\ e.op = "dereg" -> CallDereg(e.a, e.c, e.th)
      [] e.e = "run" -> Run(e.c, e.th)
      [] e.e = "end" -> End(e.c)
      [] e.e = "ret" /\ e.op = "src"   -> RetSrc(e.a)
      [] e.e = "ret" /\ e.op = "query" -> RetQuery(e.a, e.v)
      [] e.e = "ret" /\ e.op = "req"   -> RetReq(e.a, e.v)
      [] e.e = "ret" /\ e.op = "reg"   -> RetReg(e.a)
      [] e.e = "ret" /\ e.op = "dereg" -> RetDereg(e.a)
      [] e.e = "quiesce" -> Quiescent
      [] OTHER           -> FALSE
TNext ==
    \/ HasEvent /\ Step(Event1) /\ Consume
    \/ HasEvent /\ (\/ \E a \in Actors : Silent(a)
                    \/ \E c \in Cbs : SilentCb(c)) /\ Stay
TSpec == TInit /\ [][TNext]_<<vars, tvars>>
=============================================================================
