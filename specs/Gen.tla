--------------------------------- MODULE Gen ---------------------------------
(* generator<T> and async_generator<T>: a body that yields values and a consumer that asks for them one by one.           *)
(* Handles are numbered; each has one generator (or none) and the iterator the consumer got from it.                      *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Clients, Gens, Slots, MapBy

VARIABLES hd,    \* handles: generator or 0
          it,    \* iterator of a handle: "no", "val" (refers to a value) or "end"
          gn,    \* the generators
          ps     \* what each client is doing
vars == <<hd, it, gn, ps>>

Idle == [s |-> "idle"]
Init0 ==
    /\ hd = [h \in Slots |-> 0]
    /\ it = [h \in Slots |-> "no"]
    /\ gn = [g \in Gens |-> [st |-> "none", in |-> FALSE, alive |-> "no", val |-> 0, own |-> 0, th |-> 0, dth |-> 0, mapped |-> FALSE]]
    /\ ps = [a \in Clients |-> Idle]
NothingHere(th) == \A g \in Gens : ~(gn[g].alive = "dying" /\ gn[g].dth = th)
Kill(D, th) == [g \in Gens |-> IF g \in D THEN [gn[g] EXCEPT !.alive = "dying", !.dth = th] ELSE gn[g]]

(* ---------------------------------------------------------------- handles *)
(* mapped: fmap() of a generator. The body does not start before a value is asked for. *)
Create(a, g, h, mapped) ==
    /\ ps[a] = Idle /\ gn[g].st = "none" /\ hd[h] = 0
    /\ hd' = [hd EXCEPT ![h] = g]
    /\ it' = [it EXCEPT ![h] = "no"]
    /\ gn' = [gn EXCEPT ![g] = [@ EXCEPT !.st = "made", !.alive = "yes", !.mapped = mapped]]
    /\ UNCHANGED ps
CallOp(a, op, h, g, th) ==
    /\ ps[a] = Idle
    /\ LET old == IF op # "drop" /\ g = h THEN 0 ELSE hd[h] IN
       /\ hd' = CASE op = "drop" -> [hd EXCEPT ![h] = 0]
                  [] op = "move" /\ g # h -> [hd EXCEPT ![h] = hd[g], ![g] = 0]
                  [] op = "swap" /\ g # h -> [hd EXCEPT ![h] = hd[g], ![g] = hd[h]]
                  [] OTHER -> hd
       /\ it' = CASE op = "drop" -> [it EXCEPT ![h] = "no"]
                  [] op = "move" /\ g # h -> [it EXCEPT ![h] = it[g], ![g] = "no"]
                  [] op = "swap" /\ g # h -> [it EXCEPT ![h] = it[g], ![g] = it[h]]
                  [] OTHER -> it
       /\ gn' = IF op = "swap" THEN gn ELSE Kill({old} \ {0}, th)
    /\ ps' = [ps EXCEPT ![a] = [s |-> "op", th |-> th]]
RetOp(a) ==
    /\ ps[a].s = "op"
    /\ NothingHere(ps[a].th)
    /\ ps' = [ps EXCEPT ![a] = Idle]
    /\ UNCHANGED <<hd, it, gn>>
CallKill(a, c, th) ==
    /\ ps[a] = Idle /\ c # a /\ ps[c].s = "step"
    /\ ps' = [ps EXCEPT ![c] = [s |-> "killed"], ![a] = [s |-> "op", th |-> th]]
    /\ it' = [it EXCEPT ![ps[c].h] = "no"]
    /\ UNCHANGED <<hd, gn>>

(* ---------------------------------------------------------------- asking for a value *)
(* begin() (the first one) or ++ of the iterator *)
CallStep(a, op, h, th) ==
    /\ ps[a] = Idle
    /\ IF op = "begin" THEN it[h] = "no" ELSE it[h] = "val"
    /\ ps' = [ps EXCEPT ![a] = [s |-> "step", h |-> h, g |-> hd[h]]]
    /\ gn' = IF hd[h] = 0 THEN gn ELSE [gn EXCEPT ![hd[h]].st = IF @ = "made" THEN "starting" ELSE "resumed", ![hd[h]].th = th]
    /\ UNCHANGED <<hd, it>>
(* r: val (there is a value), end, exc (exception v) *)
RetStep(a, r, v, th) ==
    /\ ps[a].s = "step"
    /\ LET h == ps[a].h
           g == hd[h] IN
       /\ g = ps[a].g
       /\ IF g = 0 THEN r = "end"
          ELSE /\ gn[g].th = th
               /\ CASE r = "val" -> gn[g].st = "yielded"
                    [] r = "end" -> gn[g].st = "over"
                    [] r = "exc" -> gn[g].st = "failed" /\ v = gn[g].val
       /\ it' = [it EXCEPT ![h] = IF r = "val" THEN "val" ELSE "end"]
    /\ ps' = [ps EXCEPT ![a] = Idle]
    /\ UNCHANGED <<hd, gn>>
(* the value the iterator refers to; a consumer may change it *)
Deref(a, h, v) ==
    /\ ps[a] = Idle /\ it[h] = "val"
    /\ v = gn[hd[h]].val
    /\ UNCHANGED vars
SetVal(a, h, v) ==
    /\ ps[a] = Idle /\ it[h] = "val"
    /\ gn' = [gn EXCEPT ![hd[h]].val = v, ![hd[h]].own = IF gn[hd[h]].mapped THEN @ ELSE v]
    /\ UNCHANGED <<hd, it, ps>>
(* comparison with end() *)
IsEnd(a, h, v) ==
    /\ ps[a] = Idle /\ it[h] # "no"
    /\ v = (it[h] = "end")
    /\ UNCHANGED vars

(* ---------------------------------------------------------------- the body *)
Start(g, th) ==
    /\ gn[g].st = "starting" /\ gn[g].th = th
    /\ gn' = [gn EXCEPT ![g].st = "run", ![g].in = TRUE]
    /\ UNCHANGED <<hd, it, ps>>
(* The body goes on after a yield, and sees what became of its value. *)
See(g, v, th) ==
    /\ gn[g].st = "resumed" /\ gn[g].th = th /\ v = gn[g].own
    /\ gn' = [gn EXCEPT ![g].st = "run"]
    /\ UNCHANGED <<hd, it, ps>>
Hop(g) ==
    /\ gn[g].st = "run"
    /\ gn' = [gn EXCEPT ![g].st = "away"]
    /\ UNCHANGED <<hd, it, ps>>
Back(g, th) ==
    /\ gn[g].st = "away" /\ gn[g].alive = "yes"
    /\ gn' = [gn EXCEPT ![g].st = "run", ![g].th = th]
    /\ UNCHANGED <<hd, it, ps>>
Park(g) ==
    /\ gn[g].st = "run"
    /\ gn' = [gn EXCEPT ![g].st = "parked"]
    /\ UNCHANGED <<hd, it, ps>>
Yield(g, v) ==
    /\ gn[g].st = "run"
    /\ gn' = [gn EXCEPT ![g].st = IF gn[g].mapped THEN "mapping" ELSE "yielded", ![g].val = v, ![g].own = v]
    /\ UNCHANGED <<hd, it, ps>>
(* the function given to fmap() is called once with each value, and may change it into w *)
Map(g, v, w) ==
    /\ gn[g].st = "mapping" /\ v = gn[g].val
    /\ gn' = [gn EXCEPT ![g].st = "yielded", ![g].val = v + MapBy, ![g].own = w]
    /\ UNCHANGED <<hd, it, ps>>
MapThrow(g, v) ==
    /\ gn[g].st = "mapping"
    /\ gn' = [gn EXCEPT ![g].st = "failed", ![g].val = v]
    /\ UNCHANGED <<hd, it, ps>>
End(g) ==
    /\ gn[g].st = "run"
    /\ gn' = [gn EXCEPT ![g].st = "ending"]
    /\ UNCHANGED <<hd, it, ps>>
Throw(g, v) ==
    /\ gn[g].st = "run"
    /\ gn' = [gn EXCEPT ![g].st = "throwing", ![g].val = v]
    /\ UNCHANGED <<hd, it, ps>>
(* The local variables of the body are destroyed. *)
Left(g, th) ==
    /\ gn[g].in
    /\ \/ gn[g].st \in {"ending", "throwing"} /\ gn[g].th = th
       \/ gn[g].alive = "dying" /\ gn[g].dth = th
    /\ gn' = [gn EXCEPT ![g].in = FALSE, ![g].st = CASE @ = "ending" -> "over" [] @ = "throwing" -> "failed" [] OTHER -> @]
    /\ UNCHANGED <<hd, it, ps>>
Gone(g, th) ==
    /\ gn[g].alive = "dying" /\ gn[g].dth = th /\ ~gn[g].in
    /\ gn' = [gn EXCEPT ![g].alive = "gone"]
    /\ UNCHANGED <<hd, it, ps>>

Quiescent(waiting, all) ==
    /\ \A a \in Clients : (ps[a].s = "step") = (a \in waiting) /\ ps[a].s \in {"step", "idle", "killed"}
    /\ \A a \in waiting : ps[a].g # 0 /\ gn[ps[a].g].st = "parked"
    /\ \A g \in Gens : gn[g].alive # "dying" /\ (all => gn[g].alive \in {"no", "gone"})
    /\ UNCHANGED vars

(* ---------------------------------------------------------------- properties *)
Active == {"starting", "resumed", "run", "away", "mapping", "ending", "throwing"}
(* The body runs only when somebody waits for it. *)
Lazy == \A g \in Gens : gn[g].st \in Active /\ gn[g].alive = "yes" => \E a \in Clients : ps[a].s = "step" /\ ps[a].g = g
Refers == \A h \in Slots : /\ it[h] = "val" /\ (\A a \in Clients : ps[a].s = "step" => ps[a].h # h) => hd[h] # 0 /\ gn[hd[h]].st = "yielded"
                           /\ hd[h] # 0 => gn[hd[h]].alive = "yes"
Inv == Lazy /\ Refers
Life(x) == CASE x = "no" -> 0 [] x = "yes" -> 1 [] x = "dying" -> 2 [] OTHER -> 3
Once == [][\A g \in Gens : /\ Life(gn[g].alive) <= Life(gn'[g].alive)
                           /\ gn[g].st \in {"over", "failed"} => gn'[g].st = gn[g].st
                           /\ gn'[g].in /\ ~gn[g].in => gn[g].st = "starting"]_vars
=============================================================================
