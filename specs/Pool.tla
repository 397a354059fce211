-------------------------------- MODULE Pool --------------------------------
(* asyncpp::thread_pool, any number of pools. A task is accepted by a push, runs once on a worker of its pool, and may  *)
(* itself push. Resizing (and destruction, which is resizing to nothing) waits for the workers it removes.             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Pools, Actors, Ids     \* Actors: clients, tasks while they run, and destructors of finished tasks
VARIABLES size,   \* number of workers per pool
          gone,   \* destroyed pools
          task,   \* per task: [st, p, th], st: "none" "acc" "run" "done"
          wk,     \* what is known about threads: set of <<thread, pool>>, pool 0 for threads of clients
          cap,    \* upper bound for the number of workers (both sizes count while resizing)
          ps
vars == <<size, gone, task, wk, cap, ps>>
Idle == [s |-> "idle"]
None == [st |-> "none", p |-> 0, th |-> 0]
InitWith(sz) == /\ size = sz /\ cap = sz /\ gone = {} /\ task = [i \in Ids |-> None] /\ wk = {}
                /\ ps = [a \in Actors |-> Idle]
KnowAs(th, p) == (\A w \in wk : w[1] = th => w[2] = p) /\ wk' = wk \union {<<th, p>>}
WorkerOf(th, p) == <<th, p>> \in wk
Running(p) == {i \in Ids : task[i].st = "run" /\ task[i].p = p}
Open(p) == {i \in Ids : task[i].st \in {"acc", "run"} /\ task[i].p = p}
OnThread(th) == {i \in Ids : task[i].st = "run" /\ task[i].th = th}

Begin(a, rec) == ps[a] = Idle /\ ps' = [ps EXCEPT ![a] = [ph |-> "called"] @@ rec]
(* an operation is called on a thread: either a client's own, or that of the worker executing the calling task *)
CallOn(a, th, rec) ==
    /\ Begin(a, rec @@ [th |-> th])
    /\ IF a \in Ids THEN task[a].st = "run" /\ task[a].th = th /\ UNCHANGED wk
       ELSE (IF \E w \in wk : w[1] = th /\ w[2] # 0 THEN UNCHANGED wk ELSE KnowAs(th, 0))
    /\ UNCHANGED <<size, gone, task, cap>>
CallPush(a, p, id, th) == p \in Pools \ gone /\ id \in Ids /\ task[id].st = "none" /\ CallOn(a, th, [s |-> "push", p |-> p, id |-> id])
CallPushEmpty(a, p, th) == p \in Pools \ gone /\ CallOn(a, th, [s |-> "empty", p |-> p])
CallSize(a, p, th) == p \in Pools \ gone /\ CallOn(a, th, [s |-> "size", p |-> p])
CallResize(a, p, n, th) == p \in Pools \ gone /\ CallOn(a, th, [s |-> "resize", p |-> p, n |-> n])
CallDestroy(a, p, th) == p \in Pools \ gone /\ CallOn(a, th, [s |-> "destroy", p |-> p, n |-> 0])

PushLin(a) ==
    /\ ps[a].s = "push" /\ ps[a].ph = "called"
    /\ LET p == ps[a].p IN
       IF size[p] > 0 \/ WorkerOf(ps[a].th, p)
       THEN task' = [task EXCEPT ![ps[a].id] = [st |-> "acc", p |-> p, th |-> 0]] /\ ps' = [ps EXCEPT ![a] = [@ EXCEPT !.ph = "done"] @@ [r |-> 1]]
       ELSE UNCHANGED task /\ ps' = [ps EXCEPT ![a] = [@ EXCEPT !.ph = "done"] @@ [r |-> 0]]
    /\ UNCHANGED <<size, gone, wk, cap>>
SizeLin(a) ==
    /\ ps[a].s = "size" /\ ps[a].ph = "called"
    /\ ps' = [ps EXCEPT ![a] = [@ EXCEPT !.ph = "done"] @@ [r |-> size[ps[a].p]]]
    /\ UNCHANGED <<size, gone, task, wk, cap>>
Resizing(p) == {a \in Actors : ps[a].s \in {"resize", "destroy"} /\ ps[a].p = p /\ ps[a].ph = "busy"}
ResizeLin(a) ==
    /\ ps[a].s \in {"resize", "destroy"} /\ ps[a].ph = "called"
    /\ Resizing(ps[a].p) = {}
    /\ size' = [size EXCEPT ![ps[a].p] = ps[a].n]
    /\ cap' = [cap EXCEPT ![ps[a].p] = IF @ > ps[a].n THEN @ ELSE ps[a].n]
    /\ ps' = [ps EXCEPT ![a].ph = "busy"]
    /\ UNCHANGED <<gone, task, wk>>
(* the removed workers have ended; if none is left every accepted task has run *)
ResizeFin(a) ==
    /\ ps[a].s \in {"resize", "destroy"} /\ ps[a].ph = "busy"
    /\ LET p == ps[a].p IN
       /\ Cardinality(Running(p)) <= ps[a].n
       /\ ps[a].n = 0 => Open(p) = {}
       /\ cap' = [cap EXCEPT ![p] = ps[a].n]
    /\ ps' = [ps EXCEPT ![a].ph = "done"]
    /\ UNCHANGED <<size, gone, task, wk>>
Silent(a) == PushLin(a) \/ SizeLin(a) \/ ResizeLin(a) \/ ResizeFin(a)

(* a worker starts a task: cur is the dispatcher that is current on that thread *)
Run(id, th, cur) ==
    /\ id \in Ids /\ task[id].st = "acc" /\ cur = task[id].p
    /\ KnowAs(th, task[id].p)
    /\ OnThread(th) = {}
    /\ Cardinality(Running(task[id].p)) < cap[task[id].p]
    /\ task' = [task EXCEPT ![id].st = "run", ![id].th = th]
    /\ UNCHANGED <<size, gone, cap, ps>>
End(id) == /\ id \in Ids /\ task[id].st = "run" /\ ps[id] = Idle
           /\ task' = [task EXCEPT ![id].st = "done"] /\ UNCHANGED <<size, gone, wk, cap, ps>>
Ret(a) == ps' = [ps EXCEPT ![a] = Idle] /\ UNCHANGED <<size, task, wk, cap>>
RetPush(a, r) == ps[a].s = "push" /\ ps[a].ph = "done" /\ r = ps[a].r /\ Ret(a) /\ UNCHANGED gone
RetPushEmpty(a, r) == ps[a].s = "empty" /\ r = 1 /\ Ret(a) /\ UNCHANGED gone
RetSize(a, r) == ps[a].s = "size" /\ ps[a].ph = "done" /\ r = ps[a].r /\ Ret(a) /\ UNCHANGED gone
RetResize(a) == ps[a].s = "resize" /\ ps[a].ph = "done" /\ Ret(a) /\ UNCHANGED gone
RetDestroy(a) == ps[a].s = "destroy" /\ ps[a].ph = "done" /\ Ret(a) /\ gone' = gone \union {ps[a].p}
(* at the end: everything accepted has run, nothing is under way *)
Quiescent == (\A a \in Actors : ps[a] = Idle) /\ (\A i \in Ids : task[i].st \in {"none", "done"}) /\ UNCHANGED vars

(* ---------------------------------------------------------------- properties *)
OwnWorker == \A i \in Ids : task[i].st = "run" => WorkerOf(task[i].th, task[i].p)
OneTaskPerThread == \A i, j \in Ids : (i # j /\ task[i].st = "run" /\ task[j].st = "run") => task[i].th # task[j].th
NotTooMany == \A p \in Pools : Cardinality(Running(p)) <= cap[p]
GoneIsDone == \A p \in gone : Open(p) = {}
Inv == OwnWorker /\ OneTaskPerThread /\ NotTooMany /\ GoneIsDone
Once == [][\A i \in Ids : task[i].st = "done" => task'[i].st = "done"]_vars
=============================================================================
