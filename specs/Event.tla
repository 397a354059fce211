------------------------------- MODULE Event -------------------------------
(* The four asyncpp events and the latch, as seen by their users.                                                     *)
(*   kind: "sm" single_consumer_event            "sa" single_consumer_auto_reset_event                                *)
(*         "mm" multi_consumer_event             "ma" multi_consumer_auto_reset_event                                 *)
(*         "latch" (a multi_consumer_event that is set by the decrement that reaches zero; never reset)               *)
(* An operation is a call, one or more internal steps ("Lin" actions), and a return; a wait returns with a "resume".  *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Actors,   \* client coroutines / threads
          Disps     \* dispatchers; 0 stands for "none"

VARIABLES kind,     \* flavour, constant during a behaviour
          set,      \* the event is set
          count,    \* latch: decrements still missing
          W,        \* actors suspended in a wait, oldest first
          ps        \* what each actor is doing

vars == <<kind, set, count, W, ps>>

Idle == [s |-> "idle"]
Auto == kind \in {"sa", "ma"}
Lifo == kind \in {"mm", "ma"}       \* waiters are resumed in LIFO order (the latch documents no order)
InW == {W[i] : i \in 1..Len(W)}

InitWith(k, i, n) ==
    /\ kind = k
    /\ set = i
    /\ count = n
    /\ W = <<>>
    /\ ps = [a \in Actors |-> Idle]

(* ---------------------------------------------------------------- waiting *)
CallWait(a, d, th, c) ==
    /\ ps[a] = Idle
    /\ kind \in {"sm", "sa"} => \A b \in Actors : ps[b].s # "wait"   \* obligation of the client
    /\ ps' = [ps EXCEPT ![a] = [s |-> "wait", ph |-> "called", d |-> d, th |-> th, c |-> c]]
    /\ UNCHANGED <<kind, set, count, W>>

(* The wait takes effect: continue at once if set (consuming an automatic event), else suspend. *)
WaitLin(a) ==
    /\ ps[a].s = "wait" /\ ps[a].ph = "called"
    /\ IF set
       THEN /\ ps' = [ps EXCEPT ![a].ph = "ready"]
            /\ set' = ~Auto
            /\ W' = W
       ELSE /\ ps' = [ps EXCEPT ![a].ph = "susp"]
            /\ W' = Append(W, a)
            /\ set' = set
    /\ UNCHANGED <<kind, count>>

(* The waiting coroutine continues on thread th with current dispatcher c. *)
Resume(a, th, c) ==
    /\ ps[a].s = "wait"
    /\ \/ ps[a].ph = "ready" /\ th = ps[a].th /\ c = ps[a].c
       \/ /\ ps[a].ph = "rel"
          /\ ps[a].bef = {}
          /\ LET b == ps[a].by IN
             IF ps[a].tgt # 0
             THEN c = ps[a].tgt
             ELSE ps[b].s = "set" /\ ps[b].ph = "done" /\ ps[b].th = th
    /\ ps' = [b \in Actors |-> IF b = a THEN Idle
                               ELSE IF ps[b].s = "wait" /\ ps[b].ph = "rel" THEN [ps[b] EXCEPT !.bef = @ \ {a}]
                               ELSE ps[b]]
    /\ UNCHANGED <<kind, set, count, W>>

(* ---------------------------------------------------------------- setting *)
CallSet(a, d, th) ==
    /\ ps[a] = Idle
    /\ ps' = [ps EXCEPT ![a] = [s |-> "set", ph |-> "called", d |-> d, th |-> th]]
    /\ UNCHANGED <<kind, set, count, W>>

Target(b, d) == IF ps[b].d # 0 THEN ps[b].d ELSE d
(* Everybody who waits is released. A dispatcher (or the thread of set() itself) resumes the latest waiter first: bef    *)
(* holds those a waiter continues after.                                                                                 *)
Released(a, d) ==
    [b \in Actors |->
        IF b \in InW
        THEN LET i == CHOOSE i \in 1..Len(W) : W[i] = b IN
             [s |-> "wait", ph |-> "rel", by |-> a, tgt |-> Target(b, d),
              bef |-> IF Lifo THEN {W[j] : j \in {j \in i+1..Len(W) : Target(W[j], d) = Target(b, d)}} ELSE {}]
        ELSE ps[b]]

(* Releasing all waiters on behalf of actor a, whose phase becomes ph and whose result becomes v. *)
Release(a, ph, v) ==
    /\ ps' = [Released(a, ps[a].d) EXCEPT ![a] = [s |-> "set", ph |-> ph, d |-> ps[a].d, th |-> ps[a].th, v |-> v]]
    /\ W' = <<>>

SetLin(a) ==
    /\ ps[a].s = "set" /\ ps[a].ph = "called"
    /\ IF set
       THEN Release(a, "done", FALSE) /\ set' = set     \* nobody waits on a set event: invariant NoLostWakeup
       ELSE CASE W = <<>>                 -> Release(a, "done", FALSE) /\ set' = TRUE
              [] W # <<>> /\ ~Auto          -> Release(a, "done", TRUE) /\ set' = TRUE
              [] W # <<>> /\ kind = "ma"    -> Release(a, "done", TRUE) /\ set' = FALSE
              [] W # <<>> /\ kind = "sa"    -> Release(a, "clear", TRUE) /\ set' = TRUE
    /\ UNCHANGED <<kind, count>>

(* The single consumer automatic event is observably set for a moment before the waiter it releases continues. Signals *)
(* and resets of that moment are absorbed: the waiter continues after them.                                            *)
SetClear(a) ==
    /\ ps[a].s = "set" /\ ps[a].ph = "clear"
    /\ ps' = [ps EXCEPT ![a].ph = "done"]
    /\ set' = FALSE
    /\ UNCHANGED <<kind, count, W>>

(* set() returns only after it resumed everybody it had to resume itself. *)
RetSet(a, v) ==
    /\ ps[a].s = "set" /\ ps[a].ph = "done"
    /\ v = ps[a].v
    /\ \A b \in Actors : ~(ps[b].s = "wait" /\ ps[b].ph = "rel" /\ ps[b].by = a /\ ps[b].tgt = 0)
    /\ ps' = [ps EXCEPT ![a] = Idle]
    /\ UNCHANGED <<kind, set, count, W>>

(* ---------------------------------------------------------------- reset and queries *)
CallOp(a, op) ==
    /\ ps[a] = Idle
    /\ op \in {"reset", "isset", "isaw"}
    /\ ps' = [ps EXCEPT ![a] = [s |-> "op", op |-> op, ph |-> "called"]]
    /\ UNCHANGED <<kind, set, count, W>>

OpLin(a) ==
    /\ ps[a].s = "op" /\ ps[a].ph = "called"
    /\ ps' = [ps EXCEPT ![a] = [s |-> "op", ph |-> "done",
                 v |-> CASE ps[a].op = "reset" -> FALSE
                         [] ps[a].op = "isset" -> set
                         [] ps[a].op = "isaw"  -> W # <<>>]]
    /\ set' = IF ps[a].op = "reset" THEN FALSE ELSE set
    /\ UNCHANGED <<kind, count, W>>

RetOp(a, v) ==
    /\ ps[a].s = "op" /\ ps[a].ph = "done"
    /\ v = ps[a].v
    /\ ps' = [ps EXCEPT ![a] = Idle]
    /\ UNCHANGED <<kind, set, count, W>>

(* ---------------------------------------------------------------- latch *)
CallDec(a, n, th) ==
    /\ kind = "latch"
    /\ ps[a] = Idle
    /\ ps' = [ps EXCEPT ![a] = [s |-> "dec", n |-> n, th |-> th]]
    /\ UNCHANGED <<kind, set, count, W>>

(* Decrementing and opening are two steps: a latch may be observed closed for a moment after its count reached zero,   *)
(* but not after the last decrement returned.                                                                          *)
DecLin(a) ==
    /\ ps[a].s = "dec"
    /\ count' = count - ps[a].n
    /\ ps' = [ps EXCEPT ![a] = IF count' = 0 /\ ps[a].n > 0
                               THEN [s |-> "set", ph |-> "called", d |-> 0, th |-> ps[a].th]
                               ELSE [s |-> "set", ph |-> "done", d |-> 0, th |-> ps[a].th, v |-> FALSE]]
    /\ UNCHANGED <<kind, set, W>>

RetDec(a) ==
    /\ kind = "latch"
    /\ ps[a].s = "set" /\ ps[a].ph = "done"
    /\ RetSet(a, ps[a].v)

(* Everything the clients started has run as far as it can, and exactly the actors in susp are still suspended. *)
Quiescent(susp) ==
    /\ InW = susp
    /\ \A a \in Actors : ps[a] = Idle \/ a \in InW
    /\ UNCHANGED vars

Silent(a) == WaitLin(a) \/ SetLin(a) \/ SetClear(a) \/ OpLin(a) \/ DecLin(a)

(* ---------------------------------------------------------------- properties *)
TypeOK ==
    /\ set \in BOOLEAN /\ InW \subseteq Actors /\ Len(W) = Cardinality(InW) /\ count \in Nat
    /\ \A a \in Actors : ps[a].s \in {"idle", "wait", "set", "op", "dec"}
NoLostWakeup == ~(set /\ W # <<>>)
WaitersConsistent == InW = {a \in Actors : ps[a].s = "wait" /\ ps[a].ph = "susp"}
SingleConsumer == kind \in {"sm", "sa"} => Len(W) <= 1
LatchOpens == kind = "latch" => (set => count = 0)
Inv == TypeOK /\ NoLostWakeup /\ WaitersConsistent /\ SingleConsumer /\ LatchOpens
=============================================================================
