-------------------------------- MODULE Guards -------------------------------
(* Scope guards (and other local objects) in scopes that are left in any way. Scopes are blocks, functions and coroutine *)
(* frames; the items of a scope are its guards and plain objects.                                                          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Scopes, Items
VARIABLES sc,   \* scopes
          it    \* items
vars == <<sc, it>>
Init0 ==
    /\ sc = [s \in Scopes |-> [st |-> "none", its |-> <<>>]]
    /\ it = [i \in Items |-> [st |-> "none", obj |-> FALSE, eng |-> FALSE, v |-> 0]]
Last(q) == q[Len(q)]
Front(q) == SubSeq(q, 1, Len(q) - 1)
Open(s) == sc[s].st = "none" /\ sc' = [sc EXCEPT ![s].st = "open"] /\ UNCHANGED it
New(i, s, obj, eng, v) ==
    /\ sc[s].st = "open" /\ it[i].st = "none"
    /\ sc' = [sc EXCEPT ![s].its = Append(@, i)]
    /\ it' = [it EXCEPT ![i] = [st |-> "live", obj |-> obj, eng |-> eng, v |-> v]]
(* Engaging takes effect at once, for any guard whose turn has not come. It does not run the action. From within the    *)
(* action it has no effect any more.                                                                                       *)
Set(i, eng) ==
    /\ it[i].st \in {"live", "running"} /\ ~it[i].obj
    /\ it' = (IF it[i].st = "live" THEN [it EXCEPT ![i].eng = eng] ELSE it) /\ UNCHANGED sc
IsEngaged(i, v) == it[i].st = "live" /\ ~it[i].obj /\ v = it[i].eng /\ UNCHANGED vars
(* the function can be accessed *)
SetFunction(i, v) == it[i].st = "live" /\ ~it[i].obj /\ it' = [it EXCEPT ![i].v = v] /\ UNCHANGED sc
Function(i, v) == it[i].st = "live" /\ ~it[i].obj /\ v = it[i].v /\ UNCHANGED vars
(* the scope is left: by its end, by a return, by an exception, by the destruction of a suspended coroutine *)
Leave(s) == sc[s].st = "open" /\ sc' = [sc EXCEPT ![s].st = "leaving"] /\ UNCHANGED it
Turn(i) == \E s \in Scopes : sc[s].st = "leaving" /\ sc[s].its # <<>> /\ Last(sc[s].its) = i
(* the action of the last item; what is before it has to wait until it is over *)
Run(i, v) ==
    /\ Turn(i) /\ it[i].st = "live" /\ (it[i].obj \/ it[i].eng) /\ v = it[i].v
    /\ it' = [it EXCEPT ![i].st = "running"] /\ UNCHANGED sc
Pop(i) == sc' = [s \in Scopes |-> IF sc[s].its # <<>> /\ Last(sc[s].its) = i THEN [sc[s] EXCEPT !.its = Front(@)] ELSE sc[s]]
RunEnd(i) ==
    /\ it[i].st = "running" /\ Turn(i)
    /\ it' = [it EXCEPT ![i].st = "ran"] /\ Pop(i)
(* a guard that is not engaged goes without a trace *)
Skip(i) ==
    /\ Turn(i) /\ it[i].st = "live" /\ ~it[i].obj /\ ~it[i].eng
    /\ it' = [it EXCEPT ![i].st = "skipped"] /\ Pop(i)
Left(s) == sc[s].st = "leaving" /\ sc[s].its = <<>> /\ sc' = [sc EXCEPT ![s].st = "left"] /\ UNCHANGED it
Silent == \E i \in Items : Skip(i)
AllLeft == (\A s \in Scopes : sc[s].st \in {"none", "left"}) /\ UNCHANGED vars

Over(i) == it[i].st \in {"ran", "skipped"}
Inv == /\ \A s \in Scopes : sc[s].st = "left" => sc[s].its = <<>>
       /\ \A i \in Items : it[i].st \in {"live", "running"} <=> \E s \in Scopes : \E j \in DOMAIN sc[s].its : sc[s].its[j] = i
       /\ \A i \in Items : it[i].st = "ran" => it[i].obj \/ it[i].eng
       /\ \A i \in Items : it[i].st = "skipped" => ~it[i].eng
OneTurn == [][\A i \in Items : /\ Over(i) => it'[i] = it[i]
                               /\ it[i].st = "running" => it'[i].st \in {"running", "ran"}]_vars
=============================================================================
