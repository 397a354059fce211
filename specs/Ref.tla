-------------------------------- MODULE Ref --------------------------------
(* asyncpp::ref and atomic_ref. Slots hold objects: local slots of an actor, atomic cells and fields of objects. An     *)
(* object dies exactly when the last slot (or operation under way) lets go of it, by whoever let go. While its          *)
(* destructor runs the object is an actor itself.                                                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Locals, Cells, Objs, Actors    \* field f of object o is slot 10 * o + f, f \in {1, 2}; Objs \subseteq Actors
VARIABLES hold,   \* per slot: the object, 0 if empty
          tmp,    \* per actor: object let go by the operation under way, but not yet released
          st,     \* per object: "none" "live" "doomed" "dying" "fin" "dead"
          killer, \* per object: the actor whose release was the last
          ps
vars == <<hold, tmp, st, killer, ps>>
Fields(o) == {10 * o + 1, 10 * o + 2}
AllFields == UNION {Fields(o) : o \in Objs}
Slots == Locals \union Cells \union AllFields
Idle == [s |-> "idle"]
Init == /\ hold = [s \in Slots |-> 0] /\ tmp = [a \in Actors |-> {}] /\ st = [o \in Objs |-> "none"]
        /\ killer = [o \in Objs |-> 1000] /\ ps = [a \in Actors |-> Idle]
Count(o) == Cardinality({s \in Slots : hold[s] = o}) + Cardinality({a \in Actors : o \in tmp[a]})
Ops == {"new", "set", "move", "swap", "clear", "count", "get", "eq", "eqs", "bool", "xchg", "copyc", "movec"}
Call(a, op, d, s, o) ==
    /\ ps[a] = Idle /\ op \in Ops
    /\ op = "new" => st[o] = "none" /\ \A b \in Actors : ps[b].s = "new" => ps[b].o # o
    /\ ps' = [ps EXCEPT ![a] = [s |-> op, ph |-> "called", d |-> d, src |-> s, o |-> o, r |-> 0]]
    /\ UNCHANGED <<hold, tmp, st, killer>>
Is(a, op) == ps[a].s = op /\ ps[a].ph = "called"
Fin(a, r) == ps' = [ps EXCEPT ![a].ph = "done", ![a].r = r]
Drop1(a, o) == tmp' = [tmp EXCEPT ![a] = IF o = 0 THEN @ ELSE @ \union {o}]
(* A slot is overwritten with x; the old value is released later, but before the operation is over *)
Put(a, d, x) == hold' = [hold EXCEPT ![d] = x] /\ Drop1(a, hold[d])
New(a) == /\ Is(a, "new") /\ Put(a, ps[a].d, ps[a].o) /\ st' = [st EXCEPT ![ps[a].o] = "live"] /\ Fin(a, ps[a].o) /\ UNCHANGED killer
Set(a) == Is(a, "set") /\ LET x == hold[ps[a].src] IN Put(a, ps[a].d, x) /\ Fin(a, x) /\ UNCHANGED <<st, killer>>
(* moving out of a slot empties it; moving a slot to itself leaves it alone or empties it *)
Move(a) ==
    /\ Is(a, "move")
    /\ LET d == ps[a].d  s == ps[a].src  x == hold[s] IN
       \/ /\ d # s /\ hold' = [hold EXCEPT ![s] = 0, ![d] = x] /\ Drop1(a, hold[d]) /\ Fin(a, x)
       \/ /\ d = s /\ UNCHANGED <<hold, tmp>> /\ Fin(a, x)
       \/ /\ d = s /\ Put(a, d, 0) /\ Fin(a, 0)
    /\ UNCHANGED <<st, killer>>
Swap(a) == /\ Is(a, "swap") /\ hold' = [hold EXCEPT ![ps[a].d] = hold[ps[a].src], ![ps[a].src] = hold[ps[a].d]]
           /\ Fin(a, hold[ps[a].src]) /\ UNCHANGED <<tmp, st, killer>>
Clear(a) == Is(a, "clear") /\ Put(a, ps[a].d, 0) /\ Fin(a, 0) /\ UNCHANGED <<st, killer>>
(* the old value of cell d ends up in local src *)
Xchg(a) == /\ Is(a, "xchg") /\ hold' = [hold EXCEPT ![ps[a].d] = hold[ps[a].src], ![ps[a].src] = hold[ps[a].d]]
           /\ Fin(a, hold[ps[a].d]) /\ UNCHANGED <<tmp, st, killer>>
(* from cell to cell: two steps, the value in between is owned by the operation (ph "half") *)
CopyC(a) == /\ Is(a, "copyc") /\ LET x == hold[ps[a].src] IN
                /\ Drop1(a, x) /\ ps' = [ps EXCEPT ![a].ph = "half", ![a].o = x]
            /\ UNCHANGED <<hold, st, killer>>
MoveC(a) == /\ Is(a, "movec") /\ LET x == hold[ps[a].src] IN
                /\ hold' = [hold EXCEPT ![ps[a].src] = 0]
                /\ Drop1(a, x) /\ ps' = [ps EXCEPT ![a].ph = "half", ![a].o = x]
            /\ UNCHANGED <<st, killer>>
Half(a) == /\ ps[a].s \in {"copyc", "movec"} /\ ps[a].ph = "half"
           /\ hold' = [hold EXCEPT ![ps[a].d] = ps[a].o]
           /\ tmp' = [tmp EXCEPT ![a] = (@ \ {ps[a].o}) \union (IF hold[ps[a].d] = 0 THEN {} ELSE {hold[ps[a].d]})]
           /\ Fin(a, 0) /\ UNCHANGED <<st, killer>>
Look(a) == /\ ps[a].ph = "called" /\ ps[a].s \in {"count", "get", "eq", "eqs", "bool"}
           /\ LET x == hold[ps[a].d] IN
              Fin(a, CASE ps[a].s = "count" -> IF x = 0 THEN 0 ELSE Count(x)
                       [] ps[a].s = "get"   -> x
                       [] ps[a].s = "eq"    -> IF x = ps[a].o THEN 1 ELSE 0
                       [] ps[a].s = "bool"  -> IF x = 0 THEN 0 ELSE 1
                       [] ps[a].s = "eqs"   -> IF x = hold[ps[a].src] THEN 1 ELSE 0)
           /\ IF ps[a].s = "get" THEN Drop1(a, hold[ps[a].d]) ELSE UNCHANGED tmp    \* may hold it for a moment
           /\ UNCHANGED <<hold, st, killer>>
Doom(o, a) == IF Count(o) = 1 THEN st' = [st EXCEPT ![o] = "doomed"] /\ killer' = [killer EXCEPT ![o] = a]
              ELSE UNCHANGED <<st, killer>>
Release(a, o) == /\ o \in tmp[a] /\ ps[a].s # "idle" /\ ps[a].ph = "done"
                 /\ Doom(o, a) /\ tmp' = [tmp EXCEPT ![a] = @ \ {o}] /\ UNCHANGED <<hold, ps>>
(* members of a dying object are released after its destructor ran, on behalf of whoever destroys it *)
RelField(o, f) == /\ st[o] = "fin" /\ hold[f] # 0
                  /\ Doom(hold[f], killer[o]) /\ hold' = [hold EXCEPT ![f] = 0] /\ UNCHANGED <<tmp, ps>>
Gone(o) == /\ st[o] = "fin" /\ (\A f \in Fields(o) : hold[f] = 0)
           /\ st' = [st EXCEPT ![o] = "dead"] /\ UNCHANGED <<hold, tmp, killer, ps>>
Lin(a) == New(a) \/ Set(a) \/ Move(a) \/ Swap(a) \/ Clear(a) \/ Xchg(a) \/ CopyC(a) \/ MoveC(a) \/ Half(a)
          \/ (ps[a] # Idle /\ Look(a))
Silent == \/ \E a \in Actors : ps[a] # Idle /\ (Lin(a) \/ \E o \in tmp[a] : Release(a, o))
          \/ \E o \in Objs : st[o] = "fin" /\ (Gone(o) \/ \E f \in Fields(o) : RelField(o, f))
Drop(o, a)  == /\ o \in Objs /\ st[o] = "doomed" /\ killer[o] = a /\ st' = [st EXCEPT ![o] = "dying"] /\ UNCHANGED <<hold, tmp, killer, ps>>
DropEnd(o)  == /\ o \in Objs /\ st[o] = "dying" /\ ps[o] = Idle /\ st' = [st EXCEPT ![o] = "fin"] /\ UNCHANGED <<hold, tmp, killer, ps>>
Ret(a, r)   == /\ ps[a] # Idle /\ ps[a].ph = "done" /\ tmp[a] = {}
               /\ \A o \in Objs : killer[o] = a => st[o] = "dead"
               /\ ps[a].s \in {"count", "get", "eq", "eqs", "bool"} => r = ps[a].r
               /\ ps' = [ps EXCEPT ![a] = Idle] /\ UNCHANGED <<hold, tmp, st, killer>>
(* at the end: an object that is alive is held by somebody (the fields of a cycle) *)
Quiescent == /\ \A a \in Actors : ps[a] = Idle
             /\ \A s \in Locals \union Cells : hold[s] = 0
             /\ \A o \in Objs : st[o] \in {"none", "dead"} \/ (st[o] = "live" /\ Count(o) > 0)
             /\ UNCHANGED vars

(* ---------------------------------------------------------------- properties *)
NoDangling == \A s \in Slots : hold[s] # 0 => st[hold[s]] = "live"
TmpLive == \A a \in Actors : \A o \in tmp[a] : st[o] = "live"
Exact == \A o \in Objs : st[o] = "live" <=> Count(o) > 0
DeadEmpty == \A o \in Objs : st[o] \in {"none", "dead"} => \A f \in Fields(o) : hold[f] = 0
Inv == NoDangling /\ TmpLive /\ Exact /\ DeadEmpty
DeadStays == [][\A o \in Objs : st[o] = "dead" => st'[o] = "dead"]_vars
=============================================================================
