----------------------------- MODULE StackTrace -----------------------------
(* Measured depths. The driver runs a fixed set of actors (coroutines and fibers) on one thread; each of them has at most *)
(* Cfg.h coroutines of its own in the middle of something. A measurement d is the number of bytes in use, in units of     *)
(* Cfg.unit, which is more than what one coroutine needs, including everything it calls.                                  *)
EXTENDS Stack, TraceBase
VARIABLES live, ended
tv == <<live, ended>>
TInit == TraceStart /\ Init /\ live = {} /\ ended = {}
(* The bound of Depth, for the worst case that all of their coroutines are running *)
Most == Cardinality(live) * Cfg.h
TStep(e) ==
    CASE e.e = "start" -> e.a \notin live \cup ended /\ live' = live \cup {e.a} /\ UNCHANGED <<ended, vars>>
      [] e.e = "at"    -> e.a \in live /\ e.d <= Most /\ UNCHANGED <<tv, vars>>
      [] e.e = "end"   -> /\ e.a \in live /\ e.d <= Most /\ e.n = Cfg.n /\ e.bad = 0
                          /\ live' = live \ {e.a} /\ ended' = ended \cup {e.a} /\ UNCHANGED vars
      [] e.e = "quiesce" -> live = {} /\ UNCHANGED <<tv, vars>>
      [] OTHER         -> FALSE
TNext == HasEvent /\ TStep(Event1) /\ Consume
TSpec == TInit /\ [][TNext]_<<vars, tv, tvars>>
=============================================================================
