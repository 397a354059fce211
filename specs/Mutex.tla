------------------------------- MODULE Mutex -------------------------------
(* asyncpp::mutex as seen by its users: a flag, a first-in-first-out queue of waiting coroutines, and direct hand-over.  *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Actors

VARIABLES locked,   \* somebody owns the mutex (or it is being handed over)
          Q,        \* actors suspended in lock(), oldest first
          ps        \* what each actor is doing
vars == <<locked, Q, ps>>

Free == [s |-> "free"]    \* does not own the mutex, no operation under way
Own  == [s |-> "own"]     \* owns the mutex, no operation under way
NoOp(a) == ps[a].s \in {"free", "own"}
InQ == {Q[i] : i \in 1..Len(Q)}

InitWith(l, holder) ==   \* holder: the set of actors that own the mutex initially (at most one)
    /\ locked = l
    /\ Q = <<>>
    /\ ps = [a \in Actors |-> IF a \in holder THEN Own ELSE Free]

(* ---------------------------------------------------------------- lock (plain, scoped or through a guard) *)
CallLock(a, th) ==
    /\ ps[a].s = "free"
    /\ ps' = [ps EXCEPT ![a] = [s |-> "lock", ph |-> "called", th |-> th]]
    /\ UNCHANGED <<locked, Q>>
LockLin(a) ==
    /\ ps[a].s = "lock" /\ ps[a].ph = "called"
    /\ IF locked
       THEN /\ Q' = Append(Q, a)
            /\ ps' = [ps EXCEPT ![a].ph = "susp"]
            /\ UNCHANGED locked
       ELSE /\ locked' = TRUE
            /\ ps' = [ps EXCEPT ![a].ph = "ready"]
            /\ UNCHANGED Q
(* The coroutine continues as the owner: at once, or inside the unlock that handed the mutex over. *)
Acquired(a, th) ==
    /\ ps[a].s = "lock"
    /\ \/ ps[a].ph = "ready" /\ th = ps[a].th
       \/ ps[a].ph = "handed" /\ LET b == ps[a].by IN ps[b].s = "unlock" /\ ps[b].ph = "done" /\ ps[b].th = th
    /\ ps' = [ps EXCEPT ![a] = Own]
    /\ UNCHANGED <<locked, Q>>

(* ---------------------------------------------------------------- unlock *)
CallUnlock(a, th) ==
    /\ ps[a].s = "own"
    /\ ps' = [ps EXCEPT ![a] = [s |-> "unlock", ph |-> "called", th |-> th]]
    /\ UNCHANGED <<locked, Q>>
UnlockLin(a) ==
    /\ ps[a].s = "unlock" /\ ps[a].ph = "called"
    /\ IF Q = <<>>
       THEN locked' = FALSE /\ ps' = [ps EXCEPT ![a].ph = "done"] /\ UNCHANGED Q
       ELSE /\ Q' = Tail(Q)
            /\ ps' = [ps EXCEPT ![a].ph = "done", ![Head(Q)] = [s |-> "lock", ph |-> "handed", by |-> a]]
            /\ UNCHANGED locked
RetUnlock(a) ==
    /\ ps[a].s = "unlock" /\ ps[a].ph = "done"
    /\ \A b \in Actors : ~(ps[b].s = "lock" /\ ps[b].ph = "handed" /\ ps[b].by = a)
    /\ ps' = [ps EXCEPT ![a] = Free]
    /\ UNCHANGED <<locked, Q>>

(* ---------------------------------------------------------------- try_lock, is_locked *)
CallTry(a) ==
    /\ ps[a].s = "free"
    /\ ps' = [ps EXCEPT ![a] = [s |-> "try", ph |-> "called"]]
    /\ UNCHANGED <<locked, Q>>
TryLin(a) ==
    /\ ps[a].s = "try" /\ ps[a].ph = "called"
    /\ ps' = [ps EXCEPT ![a] = [s |-> "try", ph |-> "done", v |-> ~locked]]
    /\ locked' = TRUE
    /\ UNCHANGED Q
RetTry(a, v) ==
    /\ ps[a].s = "try" /\ ps[a].ph = "done" /\ v = ps[a].v
    /\ ps' = [ps EXCEPT ![a] = IF v THEN Own ELSE Free]
    /\ UNCHANGED <<locked, Q>>
CallQuery(a) ==
    /\ NoOp(a)
    /\ ps' = [ps EXCEPT ![a] = [s |-> "query", ph |-> "called", was |-> ps[a]]]
    /\ UNCHANGED <<locked, Q>>
QueryLin(a) ==
    /\ ps[a].s = "query" /\ ps[a].ph = "called"
    /\ ps' = [ps EXCEPT ![a] = [s |-> "query", ph |-> "done", was |-> ps[a].was, v |-> locked]]
    /\ UNCHANGED <<locked, Q>>
RetQuery(a, v) ==
    /\ ps[a].s = "query" /\ ps[a].ph = "done" /\ v = ps[a].v
    /\ ps' = [ps EXCEPT ![a] = ps[a].was]
    /\ UNCHANGED <<locked, Q>>

Silent(a) == LockLin(a) \/ UnlockLin(a) \/ TryLin(a) \/ QueryLin(a)
Quiescent(susp) ==
    /\ InQ = susp
    /\ \A a \in Actors : NoOp(a) \/ a \in InQ
    /\ UNCHANGED vars

(* ---------------------------------------------------------------- properties *)
Holds(a) == \/ ps[a].s = "own"
            \/ ps[a].s = "lock" /\ ps[a].ph \in {"ready", "handed"}
            \/ ps[a].s = "try" /\ ps[a].ph = "done" /\ ps[a].v
            \/ ps[a].s = "unlock" /\ ps[a].ph = "called"
            \/ ps[a].s = "query" /\ ps[a].was.s = "own"
MutualExclusion == Cardinality({a \in Actors : Holds(a)}) <= 1
LockedIffHeld == locked <=> \E a \in Actors : Holds(a)
NoWaiterOnFree == Q # <<>> => locked
QueueOK == /\ Cardinality(InQ) = Len(Q)
           /\ InQ = {a \in Actors : ps[a].s = "lock" /\ ps[a].ph = "susp"}
Inv == MutualExclusion /\ LockedIffHeld /\ NoWaiterOnFree /\ QueueOK
=============================================================================
