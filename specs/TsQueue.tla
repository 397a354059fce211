------------------------------ MODULE TsQueue ------------------------------
(* asyncpp::threadsafe_queue: every operation, including copying and moving a whole queue, is one atomic step.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Actors, Qs
VARIABLES q, ps
vars == <<q, ps>>
Idle == [s |-> "idle"]
InitWith(f) == q = f /\ ps = [a \in Actors |-> Idle]
Begin(a, rec) == ps[a] = Idle /\ ps' = [ps EXCEPT ![a] = [ph |-> "called"] @@ rec] /\ UNCHANGED q
CallPush(a, k, v) == Begin(a, [s |-> "push", k |-> k, v |-> v])
CallPop(a, k)     == Begin(a, [s |-> "pop", k |-> k])
CallCopy(a, k, f) == Begin(a, [s |-> "copy", k |-> k, f |-> f])   \* construction or assignment; k = f: onto itself
CallMove(a, k, f) == Begin(a, [s |-> "move", k |-> k, f |-> f])
Done(a, r) == ps' = [ps EXCEPT ![a] = [ph |-> "done", r |-> r] @@ @]
PushLin(a) == /\ ps[a].s = "push" /\ ps[a].ph = "called"
              /\ q' = [q EXCEPT ![ps[a].k] = Append(@, ps[a].v)] /\ Done(a, 0)
PopLin(a)  == /\ ps[a].s = "pop" /\ ps[a].ph = "called"
              /\ LET k == ps[a].k IN
                 IF q[k] = <<>> THEN Done(a, 0) /\ UNCHANGED q
                 ELSE Done(a, Head(q[k])) /\ q' = [q EXCEPT ![k] = Tail(@)]
CopyLin(a) == /\ ps[a].s = "copy" /\ ps[a].ph = "called"
              /\ q' = [q EXCEPT ![ps[a].k] = q[ps[a].f]] /\ Done(a, 0)
MoveLin(a) == /\ ps[a].s = "move" /\ ps[a].ph = "called"
              /\ LET k == ps[a].k
                     f == ps[a].f IN
                 q' = IF k = f THEN q ELSE [q EXCEPT ![k] = q[f], ![f] = <<>>]
              /\ Done(a, 0)
Silent(a) == PushLin(a) \/ PopLin(a) \/ CopyLin(a) \/ MoveLin(a)
Ret(a, r) == /\ ps[a].s # "idle" /\ ps[a].ph = "done" /\ r = ps[a].r
             /\ ps' = [ps EXCEPT ![a] = Idle] /\ UNCHANGED q
Quiescent == (\A a \in Actors : ps[a] = Idle) /\ UNCHANGED vars
=============================================================================
