------------------------------ MODULE Detached ------------------------------
(* Detached tasks as seen by their users: fire_and_forget_task ("lazy"), eager_fire_and_forget_task ("eager"), launch()   *)
(* ("launch") and as_promise() ("future"). Handles are numbered; clients and running tasks are actors.                    *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Clients, Tasks, Slots
Actors == Clients \cup Tasks

VARIABLES hd,    \* handles: task or 0
          tk,    \* the tasks
          ps     \* what each actor is doing
vars == <<hd, tk, ps>>

Idle == [s |-> "idle"]
Terminate == 0
Ignore == 1
Handle == 2
Init0 ==
    /\ hd = [h \in Slots |-> 0]
    /\ tk = [t \in Tasks |-> [k |-> "none", st |-> "none", th |-> 0, pol |-> Terminate, v |-> 0,
                          exc |-> FALSE, alive |-> "no", dth |-> 0, temp |-> FALSE]]
    /\ ps = [a \in Actors |-> Idle]

(* start() holds the reference of its handle while it runs the task: the task may destroy the handle it was started with *)
HeldBy(t, p) == {a \in Actors : p[a].s = "op" /\ p[a].ph = "started" /\ p[a].t = t}
Used(t, h, p) == (\E x \in Slots : h[x] = t) \/ HeldBy(t, p) # {}
(* the task is executing (or being destroyed) on thread th *)
Here(t, th) == \/ tk[t].th = th /\ tk[t].st \in {"starting", "run", "thrown", "ended", "ready"}
               \/ tk[t].dth = th /\ tk[t].alive = "dying"
NothingHere(th) == \A t \in Tasks : ~(tk[t].dth = th /\ tk[t].alive = "dying")

(* ---------------------------------------------------------------- creating *)
CallCreate(a, t, k, h, th) ==
    /\ ps[a] = Idle /\ tk[t].st = "none"
    /\ IF k \in {"lazy", "eager"} THEN hd[h] = 0 /\ hd' = [hd EXCEPT ![h] = t] ELSE hd' = hd
    /\ tk' = [tk EXCEPT ![t] = [k |-> k, st |-> IF k = "lazy" THEN "made" ELSE "starting", th |-> th, pol |-> Terminate,
                                v |-> 0, exc |-> FALSE, alive |-> "yes", dth |-> 0, temp |-> k = "future"]]
    /\ ps' = [ps EXCEPT ![a] = [s |-> "create", t |-> t, th |-> th]]
(* The call that made a future still holds the task for a while. *)
DropTemp(a) ==
    /\ ps[a].s = "create"
    /\ LET t == ps[a].t IN
       /\ tk[t].temp /\ ~Here(t, ps[a].th)
       /\ tk' = [tk EXCEPT ![t].temp = FALSE, ![t].alive = IF tk[t].st = "over" THEN "dying" ELSE @, ![t].dth = ps[a].th]
    /\ UNCHANGED <<hd, ps>>
(* An eager task has run until it first suspended. *)
RetCreate(a) ==
    /\ ps[a].s = "create"
    /\ ~Here(ps[a].t, ps[a].th) /\ ~tk[ps[a].t].temp
    /\ ps' = [ps EXCEPT ![a] = Idle]
    /\ UNCHANGED <<hd, tk>>

(* ---------------------------------------------------------------- handles *)
(* op: start (and give up the handle h), drop h, copy or move g to h *)
CallOp(a, op, h, g, th) ==
    /\ ps[a] = Idle
    /\ ps' = [ps EXCEPT ![a] = [s |-> "op", op |-> op, ph |-> "called", h |-> h, g |-> g, th |-> th, t |-> 0]]
    /\ UNCHANGED <<hd, tk>>
StartLin(a) ==
    /\ ps[a].s = "op" /\ ps[a].ph = "called" /\ ps[a].op = "start"
    /\ LET t == hd[ps[a].h] IN
       IF t # 0 /\ tk[t].st = "made" THEN tk' = [tk EXCEPT ![t].st = "starting", ![t].th = ps[a].th] ELSE tk' = tk
    /\ ps' = [ps EXCEPT ![a].ph = "started", ![a].t = hd[ps[a].h]]
    /\ hd' = [hd EXCEPT ![ps[a].h] = 0]
(* the task loses its last reference when nobody can start or observe it any more *)
Over(t) == tk[t].st \in {"made", "over"}
HandleLin(a) ==
    /\ ps[a].s = "op"
    /\ LET p == ps[a]
           t == IF p.op = "start" THEN p.t ELSE hd[p.h]
           new == CASE p.op = "start" -> hd
                    [] p.op = "drop" -> [hd EXCEPT ![p.h] = 0]
                    [] p.op = "copy" -> [hd EXCEPT ![p.h] = hd[p.g]]
                    [] p.op = "move" -> IF p.g = p.h THEN hd ELSE [hd EXCEPT ![p.h] = hd[p.g], ![p.g] = 0]
           q == [ps EXCEPT ![a].ph = "done"]
       IN
       /\ IF p.op = "start" THEN p.ph = "started" /\ (t # 0 => ~Here(t, p.th)) ELSE p.ph = "called"
       /\ hd' = new
       /\ tk' = IF t # 0 /\ Over(t) /\ ~Used(t, new, q)
                THEN [tk EXCEPT ![t].alive = "dying", ![t].dth = p.th] ELSE tk
       /\ ps' = q
RetOp(a) ==
    /\ ps[a].s = "op" /\ ps[a].ph = "done"
    /\ NothingHere(ps[a].th)
    /\ ps' = [ps EXCEPT ![a] = Idle]
    /\ UNCHANGED <<hd, tk>>

(* ---------------------------------------------------------------- the body *)
Start(t, th) ==
    /\ tk[t].st = "starting" /\ tk[t].th = th
    /\ tk' = [tk EXCEPT ![t].st = "run"]
    /\ UNCHANGED <<hd, ps>>
Running(t) == tk[t].st = "run" /\ ps[t] = Idle
SetPolicy(t, p) ==
    /\ Running(t) /\ tk[t].k \in {"lazy", "eager"}
    /\ tk' = [tk EXCEPT ![t].pol = p]
    /\ UNCHANGED <<hd, ps>>
Hop(t) ==   \* suspends
    /\ Running(t)
    /\ tk' = [tk EXCEPT ![t].st = "away"]
    /\ UNCHANGED <<hd, ps>>
Back(t, th) ==
    /\ tk[t].st = "away"
    /\ tk' = [tk EXCEPT ![t].st = "run", ![t].th = th]
    /\ UNCHANGED <<hd, ps>>
Throw(t, v) ==
    /\ Running(t)
    /\ tk' = [tk EXCEPT ![t].st = "thrown", ![t].v = v, ![t].exc = TRUE]
    /\ UNCHANGED <<hd, ps>>
End(t, v) ==
    /\ Running(t)
    /\ tk' = [tk EXCEPT ![t].st = "ended", ![t].v = v]
    /\ UNCHANGED <<hd, ps>>
Handled(t, v, th) ==
    /\ tk[t].st = "thrown" /\ tk[t].k \in {"lazy", "eager"} /\ tk[t].pol = Handle
    /\ tk[t].v = v /\ tk[t].th = th
    /\ tk' = [tk EXCEPT ![t].st = "ended"]
    /\ UNCHANGED <<hd, ps>>
Swallowed(t) ==
    /\ tk[t].st = "thrown"
    /\ tk[t].k = "future" \/ (tk[t].k \in {"lazy", "eager"} /\ tk[t].pol = Ignore)
    /\ tk' = [tk EXCEPT ![t].st = "ended"]
    /\ UNCHANGED <<hd, ps>>
(* The process ends; allowed only if nothing catches the exception of some task. *)
Terminated ==
    /\ \E t \in Tasks : tk[t].st = "thrown" /\ (tk[t].k = "launch" \/ (tk[t].k \in {"lazy", "eager"} /\ tk[t].pol = Terminate))
    /\ UNCHANGED vars
FutureReady(t) ==
    /\ tk[t].st = "ended" /\ tk[t].k = "future"
    /\ tk' = [tk EXCEPT ![t].st = "ready"]
    /\ UNCHANGED <<hd, ps>>
BodyOver(t) ==
    /\ tk[t].st = IF tk[t].k = "future" THEN "ready" ELSE "ended"
    /\ tk' = [tk EXCEPT ![t].st = "over",
                        ![t].alive = IF ~Used(t, hd, ps) /\ ~tk[t].temp THEN "dying" ELSE "yes", ![t].dth = tk[t].th]
    /\ UNCHANGED <<hd, ps>>
Gone(t, th) ==
    /\ tk[t].alive = "dying" /\ tk[t].dth = th
    /\ tk' = [tk EXCEPT ![t].alive = "gone"]
    /\ UNCHANGED <<hd, ps>>

(* ---------------------------------------------------------------- futures *)
IsReady(t) == tk[t].st \in {"ready", "over"}
CallPoll(a, t) ==
    /\ ps[a] = Idle /\ tk[t].st # "none" /\ tk[t].k = "future"
    /\ ps' = [ps EXCEPT ![a] = [s |-> "poll", ph |-> "called", t |-> t]]
    /\ UNCHANGED <<hd, tk>>
PollLin(a) ==
    /\ ps[a].s = "poll" /\ ps[a].ph = "called"
    /\ ps' = [ps EXCEPT ![a] = [s |-> "poll", ph |-> "done", v |-> IsReady(ps[a].t)]]
    /\ UNCHANGED <<hd, tk>>
RetPoll(a, v) ==
    /\ ps[a].s = "poll" /\ ps[a].ph = "done" /\ ps[a].v = v
    /\ ps' = [ps EXCEPT ![a] = Idle]
    /\ UNCHANGED <<hd, tk>>
CallGet(a, t) ==
    /\ ps[a] = Idle /\ tk[t].st # "none" /\ tk[t].k = "future"
    /\ ps' = [ps EXCEPT ![a] = [s |-> "get", t |-> t]]
    /\ UNCHANGED <<hd, tk>>
RetGet(a, v, exc) ==
    /\ ps[a].s = "get" /\ IsReady(ps[a].t)
    /\ v = tk[ps[a].t].v /\ exc = tk[ps[a].t].exc
    /\ ps' = [ps EXCEPT ![a] = Idle]
    /\ UNCHANGED <<hd, tk>>

Silent(a) == DropTemp(a) \/ StartLin(a) \/ HandleLin(a) \/ PollLin(a)
SilentTask(t) == Swallowed(t) \/ FutureReady(t) \/ BodyOver(t)

(* Nothing moves any more. all: every handle was given up, so everything is gone *)
Quiescent(all) ==
    /\ \A a \in Actors : ps[a] = Idle
    /\ \A t \in Tasks : tk[t].st \in {"none", "made", "over"} /\ tk[t].alive # "dying"
    /\ all => \A t \in Tasks : tk[t].alive \in {"no", "gone"}
    /\ UNCHANGED vars

(* ---------------------------------------------------------------- properties *)
GoneOnlyUnused == \A t \in Tasks : tk[t].alive \in {"dying", "gone"} => Over(t) /\ ~Used(t, hd, ps) /\ ~tk[t].temp
NoLeak == \A t \in Tasks : (Over(t) /\ ~Used(t, hd, ps) /\ ~tk[t].temp) => tk[t].alive \in {"dying", "gone"} \/ \E a \in Actors : ps[a].s = "create" /\ ps[a].t = t
Inv == GoneOnlyUnused /\ NoLeak
Order(x) == CASE x = "none" -> 0 [] x = "made" -> 1 [] x = "starting" -> 2 [] x \in {"run", "away"} -> 3 [] x = "thrown" -> 4
              [] x = "ended" -> 5 [] x = "ready" -> 6 [] OTHER -> 7
Life(x) == CASE x = "no" -> 0 [] x = "yes" -> 1 [] x = "dying" -> 2 [] OTHER -> 3
Once == [][\A t \in Tasks : Order(tk[t].st) <= Order(tk'[t].st) /\ Life(tk[t].alive) <= Life(tk'[t].alive)]_vars
=============================================================================
