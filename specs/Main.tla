--------------------------------- MODULE Main ---------------------------------
(* async_main: the main function runs a dispatcher on its thread, runs the coroutine async_main on it and everything      *)
(* that is pushed to it, and returns with the result as soon as async_main is over, wherever that happens.                 *)
EXTENDS Integers, Sequences
CONSTANTS Tasks, Threads, Results, MainTh
VARIABLES m,    \* main: "off" "on" "back"
          co,   \* async_main: [st, th, v, in]
          q,    \* tasks pushed to the dispatcher of main
          pend, \* per thread: pushes under way
          run   \* what runs on it: 0 nothing, -1 async_main, or a task
vars == <<m, co, q, pend, run>>
Init0 == m = "off" /\ co = [st |-> "none", th |-> -1, v |-> 0, in |-> FALSE] /\ q = <<>> /\ run = 0 /\ pend = [t \in Threads |-> <<>>]
Call == m = "off" /\ m' = "on" /\ UNCHANGED <<co, q, pend, run>>
(* async_main is started once, on the thread of main, with the arguments of main and the dispatcher as the current one *)
Start(th, cur, args) ==
    /\ m = "on" /\ co.st = "none" /\ th = MainTh /\ cur = TRUE /\ args = TRUE /\ run = 0
    /\ co' = [co EXCEPT !.st = "run", !.th = th, !.in = TRUE] /\ run' = -1
    /\ UNCHANGED <<m, q, pend>>
(* it goes on in the dispatcher of main or somewhere else *)
Hop(home) ==
    /\ co.st = "run"
    /\ co' = [co EXCEPT !.st = IF home THEN "queued" ELSE "away"]
    /\ pend' = IF home THEN [pend EXCEPT ![co.th] = Append(@, -1)] ELSE pend
    /\ run' = IF co.th = MainTh THEN 0 ELSE run
    /\ UNCHANGED <<m, q>>
Back(th, cur) ==
    /\ m = "on" /\ cur = (th = MainTh)
    /\ IF th = MainTh THEN co.st = "queued" /\ run = 0 /\ q # <<>> /\ Head(q) = -1 /\ q' = Tail(q) /\ run' = -1
       ELSE co.st = "away" /\ UNCHANGED <<q, run>>
    /\ co' = [co EXCEPT !.st = "run", !.th = th] /\ UNCHANGED <<m, pend>>
Push(id, th) == m = "on" /\ pend' = [pend EXCEPT ![th] = Append(@, id)] /\ UNCHANGED <<m, co, q, run>>
PushLin(th) == pend[th] # <<>> /\ q' = Append(q, Head(pend[th])) /\ pend' = [pend EXCEPT ![th] = Tail(@)] /\ UNCHANGED <<m, co, run>>
Silent == \E th \in Threads : PushLin(th)
Run(id, th, cur) ==
    /\ m = "on" /\ th = MainTh /\ cur = TRUE /\ run = 0 /\ q # <<>> /\ Head(q) = id
    /\ q' = Tail(q) /\ run' = id /\ UNCHANGED <<m, co, pend>>
Ran(id) == run = id /\ run' = 0 /\ UNCHANGED <<m, co, q, pend>>
(* a result below zero stands for an exception *)
End(v) == co.st = "run" /\ co' = [co EXCEPT !.st = "over", !.v = v] /\ UNCHANGED <<m, q, pend, run>>
(* its local variables are destroyed before main returns *)
Left(th) == co.st = "over" /\ co.in /\ th = co.th /\ co' = [co EXCEPT !.in = FALSE] /\ UNCHANGED <<m, q, pend, run>>
Return(v, th, cur) ==
    /\ m = "on" /\ co.st = "over" /\ ~co.in /\ th = MainTh /\ cur = FALSE
    /\ v = co.v /\ run = (IF co.th = MainTh THEN -1 ELSE 0)
    /\ m' = "back" /\ UNCHANGED <<co, q, pend, run>>
Finished == m = "back" /\ UNCHANGED vars

Inv == /\ run = -1 => co.th = MainTh /\ co.st \in {"run", "over"}
       /\ co.st \in {"run", "over"} /\ co.th = MainTh => run = -1
       /\ m = "back" => co.st = "over"
Once == [][/\ co.st = "over" => co'.st = "over" /\ co'.v = co.v
           /\ m = "back" => m' = "back" /\ run' = run]_vars
=============================================================================
