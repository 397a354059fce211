-------------------------------- MODULE Fiber -------------------------------
(* fiber<T>: functions with a stack of their own, started when they are awaited, with one owner, awaited by coroutines   *)
(* (clients) and by other fibers.                                                                                         *)
(* Handles are numbered; those in Tasks are local variables of the fiber that created the fiber of that number.           *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Clients, Tasks, Slots
Actors == Clients \cup Tasks

VARIABLES hd,    \* handles: task or 0
          tk,    \* the fibers
          ps     \* what each actor is doing
vars == <<hd, tk, ps>>

Idle == [s |-> "idle"]
NoOne == -1
Init0 ==
    /\ hd = [h \in Slots |-> 0]
    /\ tk = [t \in Tasks |-> [st |-> "none", alive |-> "no", th |-> 0, dth |-> 0, by |-> 0, in |-> FALSE, v |-> 0, waiter |-> NoOne, of |-> 0]]
    /\ ps = [a \in Actors |-> Idle]

(* the fibers D are being destroyed on thread th, as a part of leaving or destroying the stack of fiber o *)
Kill(T, D, th, o) == [t \in Tasks |-> IF t \in D THEN [T[t] EXCEPT !.alive = "dying", !.dth = th, !.of = o] ELSE T[t]]
NothingHere(th) == \A t \in Tasks : ~(tk[t].alive = "dying" /\ tk[t].dth = th)
(* the body may act *)
Running(t) == tk[t].st = "run" /\ ps[t] = Idle
May(a) == ps[a] = Idle /\ (a \in Tasks => tk[a].st = "run")

(* ---------------------------------------------------------------- creating and handles *)
(* The body does not start before the fiber is awaited. *)
Create(a, t, h) ==
    /\ May(a) /\ tk[t].st = "none" /\ hd[h] = 0
    /\ hd' = [hd EXCEPT ![h] = t]
    /\ tk' = [tk EXCEPT ![t] = [@ EXCEPT !.st = "made", !.alive = "yes", !.by = a]]
    /\ UNCHANGED ps
(* drop h, or move g to h, which drops what h had *)
CallOp(a, op, h, g, th) ==
    /\ May(a)
    /\ LET old == IF op = "move" /\ g = h THEN 0 ELSE hd[h] IN
       /\ hd' = IF op = "drop" THEN [hd EXCEPT ![h] = 0] ELSE IF g = h THEN hd ELSE [hd EXCEPT ![h] = hd[g], ![g] = 0]
       /\ tk' = Kill(tk, {old} \ {0}, th, 0)
    /\ ps' = [ps EXCEPT ![a] = [s |-> "op", th |-> th]]
(* The coroutine of a client is destroyed while it waits, possibly for a fiber that was dropped. *)
CallKill(a, c, th) ==
    /\ May(a) /\ c \in Clients \ {a} /\ ps[c].s = "await"
    /\ tk' = IF ps[c].temp THEN Kill(tk, {ps[c].t}, th, 0) ELSE [tk EXCEPT ![ps[c].t].waiter = NoOne]
    /\ ps' = [ps EXCEPT ![c] = [s |-> "killed"], ![a] = [s |-> "op", th |-> th]]
    /\ UNCHANGED hd
RetOp(a) ==
    /\ ps[a].s = "op"
    /\ NothingHere(ps[a].th)
    /\ ps' = [ps EXCEPT ![a] = Idle]
    /\ UNCHANGED <<hd, tk>>

(* ---------------------------------------------------------------- awaiting *)
(* temp: the fiber is dropped as soon as its result is there *)
Await(a, h, temp, th) ==
    /\ May(a) /\ hd[h] # 0
    /\ LET t == hd[h] IN
       /\ tk[t].st = "made"
       /\ tk' = [tk EXCEPT ![t].st = "starting", ![t].th = th, ![t].waiter = a]
       /\ ps' = [ps EXCEPT ![a] = [s |-> "await", t |-> t, temp |-> temp]]
       /\ hd' = IF temp THEN [hd EXCEPT ![h] = 0] ELSE hd
Start(t, th) ==
    /\ tk[t].st = "starting" /\ tk[t].th = th
    /\ tk' = [tk EXCEPT ![t].st = "run", ![t].in = TRUE]
    /\ UNCHANGED <<hd, ps>>
Hop(t) ==
    /\ Running(t)
    /\ tk' = [tk EXCEPT ![t].st = "away"]
    /\ UNCHANGED <<hd, ps>>
Back(t, th) ==
    /\ tk[t].st = "away" /\ tk[t].alive = "yes"
    /\ tk' = [tk EXCEPT ![t].st = "run", ![t].th = th]
    /\ UNCHANGED <<hd, ps>>
(* suspended for good *)
Park(t) ==
    /\ Running(t)
    /\ tk' = [tk EXCEPT ![t].st = "parked"]
    /\ UNCHANGED <<hd, ps>>
End(t, v) ==
    /\ Running(t)
    /\ tk' = [tk EXCEPT ![t].st = "leaving", ![t].v = v]
    /\ UNCHANGED <<hd, ps>>
AwaitedTemp(t) == IF ps[t].s = "await" /\ ps[t].temp THEN {ps[t].t} ELSE {}
(* The local variables are destroyed: when the body ends, or when a suspended fiber is dropped. Fibers among them go first. *)
Mine(t) == {h \in Slots : h \in Tasks /\ tk[h].by = t /\ hd[h] # 0}
LocalsDie(t) ==
    /\ tk[t].in
    /\ tk[t].st = "leaving" \/ tk[t].alive = "dying"
    /\ \A u \in AwaitedTemp(t) : tk[u].alive = "gone"
    /\ Mine(t) # {}
    /\ hd' = [h \in Slots |-> IF h \in Mine(t) THEN 0 ELSE hd[h]]
    /\ tk' = Kill(tk, {hd[h] : h \in Mine(t)}, IF tk[t].alive = "dying" THEN tk[t].dth ELSE tk[t].th, t)
    /\ UNCHANGED ps
(* the last local variable of the body is destroyed: after those fibers *)
NoneDying(t) == \A u \in Tasks : ~(tk[u].alive = "dying" /\ tk[u].of = t)
Left(t, th) ==
    /\ tk[t].in
    /\ \/ tk[t].alive = "yes" /\ tk[t].st = "leaving" /\ tk[t].th = th
       \/ tk[t].alive = "dying" /\ tk[t].dth = th
    /\ Mine(t) = {} /\ NoneDying(t) /\ \A u \in AwaitedTemp(t) : tk[u].alive = "gone"
    /\ tk' = [tk EXCEPT ![t].in = FALSE, ![t].st = IF @ = "leaving" THEN "over" ELSE @]
    /\ UNCHANGED <<hd, ps>>
(* A temporary fiber a dying fiber was waiting for dies with it. *)
TempDies(t) ==
    /\ tk[t].alive = "dying" /\ AwaitedTemp(t) # {} /\ \A u \in AwaitedTemp(t) : tk[u].alive = "yes"
    /\ tk' = Kill(tk, AwaitedTemp(t), tk[t].dth, t)
    /\ UNCHANGED <<hd, ps>>
(* ---------------------------------------------------------------- misuse and repetition, observed at once *)
(* a fiber that has ended gives its result again *)
Again(a, h, v) ==
    /\ May(a) /\ hd[h] # 0
    /\ tk[hd[h]].st = "done" /\ tk[hd[h]].v = v
    /\ UNCHANGED vars
(* one that is being awaited can not be awaited a second time *)
Refused(a, h) ==
    /\ May(a) /\ hd[h] # 0
    /\ tk[hd[h]].st \notin {"made", "done"}
    /\ UNCHANGED vars
Empty(a, h) ==
    /\ May(a) /\ hd[h] = 0
    /\ UNCHANGED vars

(* ---------------------------------------------------------------- ending *)
(* The awaiting coroutine goes on where the fiber ended, with its result. A temporary fiber is destroyed before that. *)
TempDrop(a) ==
    /\ ps[a].s = "await" /\ ps[a].temp
    /\ LET t == ps[a].t IN
       /\ tk[t].st = "over" /\ tk[t].alive = "yes"
       /\ tk' = Kill([tk EXCEPT ![t].st = "done"], {t}, tk[t].th, 0)
       /\ ps' = [ps EXCEPT ![a] = [s |-> "got", t |-> t]]
    /\ UNCHANGED hd
Result(a, t, v, th) ==
    /\ \/ ps[a].s = "await" /\ ~ps[a].temp /\ ps[a].t = t /\ tk[t].st = "over" /\ tk[t].alive = "yes"
       \/ ps[a].s = "got" /\ ps[a].t = t /\ tk[t].alive = "gone"
    /\ tk[t].th = th
    /\ v = tk[t].v
    /\ LET T == [tk EXCEPT ![t].st = "done", ![t].waiter = NoOne] IN
       tk' = IF a \in Tasks THEN [T EXCEPT ![a].th = th] ELSE T
    /\ ps' = [ps EXCEPT ![a] = Idle]
    /\ UNCHANGED hd
(* The function is destroyed; after the local variables. *)
Gone(t, th) ==
    /\ tk[t].alive = "dying" /\ tk[t].dth = th
    /\ ~tk[t].in /\ NoneDying(t)
    /\ tk' = [tk EXCEPT ![t].alive = "gone"]
    /\ UNCHANGED <<hd, ps>>

Silent == (\E t \in Tasks : LocalsDie(t) \/ TempDies(t)) \/ (\E a \in Actors : TempDrop(a))

(* Nothing moves any more. *)
Stuck(t) == tk[t].st = "parked" \/ (ps[t].s = "await" /\ tk[t].alive = "yes")
Quiescent(waiting, all) ==
    /\ \A a \in Clients : (ps[a].s = "await") = (a \in waiting) /\ ps[a].s \in {"await", "idle", "killed"}
    /\ \A t \in Tasks : /\ tk[t].alive # "dying"
                        /\ tk[t].alive = "yes" => tk[t].st \in {"made", "done", "parked"} \/ (ps[t].s = "await" /\ tk[t].st = "run")
    /\ all => \A t \in Tasks : tk[t].alive \in {"no", "gone"}
    /\ UNCHANGED vars

(* ---------------------------------------------------------------- properties *)
(* a fiber that runs or ended has exactly one coroutine waiting for it *)
OneWaiter == \A t \in Tasks : Cardinality({a \in Actors : ps[a].s = "await" /\ ps[a].t = t}) <= 1
Waited == \A t \in Tasks : tk[t].st \in {"starting", "run", "away", "leaving", "over"} /\ tk[t].alive = "yes" /\ tk[t].waiter # NoOne =>
              ps[tk[t].waiter].s = "await" /\ ps[tk[t].waiter].t = t
Frames == \A t \in Tasks : /\ tk[t].st = "none" => tk[t].alive = "no"
                           /\ tk[t].alive = "gone" => ~tk[t].in /\ \A h \in Slots : hd[h] # t
                           /\ tk[t].in => tk[t].st \in {"run", "away", "parked", "leaving"}
Inv == OneWaiter /\ Waited /\ Frames
Order(x) == CASE x = "none" -> 0 [] x = "made" -> 1 [] x = "starting" -> 2 [] x \in {"run", "away", "parked"} -> 3 [] x = "leaving" -> 4
              [] x = "over" -> 5 [] OTHER -> 6
Life(x) == CASE x = "no" -> 0 [] x = "yes" -> 1 [] x = "dying" -> 2 [] OTHER -> 3
Once == [][\A t \in Tasks : Order(tk[t].st) <= Order(tk'[t].st) /\ Life(tk[t].alive) <= Life(tk'[t].alive)]_vars
=============================================================================
