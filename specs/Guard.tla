------------------------------- MODULE Guard -------------------------------
(* asyncpp::mutex_lock guards over several mutexes, driven by one client; waiter coroutines queue behind the guards.   *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Ms, Gs, Ws      \* mutexes, guard slots, waiters
VARIABLES owner,   \* [Ms -> ["f" free, "g" guard i, "w" waiter i, "r" raw (locked without a guard)]]
          g,       \* [Gs -> [live, m (0 = none), held]]
          q,       \* [Ms -> sequence of waiters]
          w,       \* [Ws -> "no" | "wait" | "handed" | "own" | "done"]
          op       \* the client's operation under way: "idle" or "busy"
vars == <<owner, g, q, w, op>>
Free == [t |-> "f", i |-> 0]
Raw == [t |-> "r", i |-> 0]
G(i) == [t |-> "g", i |-> i]
WO(i) == [t |-> "w", i |-> i]
None == [live |-> FALSE, m |-> 0, held |-> FALSE]
Init ==
    /\ owner = [m \in Ms |-> Free] /\ g = [i \in Gs |-> None]
    /\ q = [m \in Ms |-> <<>>] /\ w = [i \in Ws |-> [s |-> "no", m |-> 0]] /\ op = "idle"

(* releasing mutex m: direct hand-over to the longest waiting coroutine, or free *)
ReleaseTo(m) ==
    IF q[m] = <<>>
    THEN /\ owner' = [owner EXCEPT ![m] = Free] /\ UNCHANGED <<q, w>>
    ELSE LET h == Head(q[m]) IN
         /\ owner' = [owner EXCEPT ![m] = WO(h)]
         /\ q' = [q EXCEPT ![m] = Tail(@)]
         /\ w' = [w EXCEPT ![h].s = "handed"]
NoRelease == UNCHANGED <<owner, q, w>>
Begin == op = "idle" /\ op' = "busy"

New(i, m)   == /\ Begin
               /\ ~g[i].live /\ g' = [g EXCEPT ![i] = [live |-> TRUE, m |-> m, held |-> FALSE]] /\ NoRelease
Adopt(i, m) == /\ Begin
               /\ ~g[i].live /\ owner[m] = Raw
               /\ g' = [g EXCEPT ![i] = [live |-> TRUE, m |-> m, held |-> TRUE]]
               /\ owner' = [owner EXCEPT ![m] = G(i)] /\ UNCHANGED <<q, w>>
(* try_lock / lock of a free mutex through guard i or raw; ok tells whether it succeeded *)
GTry(i, ok) == /\ Begin
               /\ g[i].live /\ g[i].m # 0 /\ ~g[i].held
               /\ LET m == g[i].m IN
                  /\ ok = (owner[m] = Free)
                  /\ IF ok THEN g' = [g EXCEPT ![i].held = TRUE] /\ owner' = [owner EXCEPT ![m] = G(i)] ELSE UNCHANGED <<g, owner>>
               /\ UNCHANGED <<q, w>>
RTry(m, ok) == /\ Begin
               /\ ok = (owner[m] = Free)
               /\ owner' = IF ok THEN [owner EXCEPT ![m] = Raw] ELSE owner
               /\ UNCHANGED <<g, q, w>>
GLock(i)    == /\ Begin /\ g[i].live /\ g[i].m # 0
               /\ IF g[i].held THEN UNCHANGED <<g, owner>>
                  ELSE owner[g[i].m] = Free /\ g' = [g EXCEPT ![i].held = TRUE] /\ owner' = [owner EXCEPT ![g[i].m] = G(i)]
               /\ UNCHANGED <<q, w>>
Scoped(i, m) == /\ Begin
               /\ ~g[i].live /\ owner[m] = Free
               /\ g' = [g EXCEPT ![i] = [live |-> TRUE, m |-> m, held |-> TRUE]]
               /\ owner' = [owner EXCEPT ![m] = G(i)] /\ UNCHANGED <<q, w>>
GUnlock(i)  == /\ Begin
               /\ g[i].live /\ g[i].held /\ g' = [g EXCEPT ![i].held = FALSE] /\ ReleaseTo(g[i].m)
RUnlock(m)  == /\ Begin
               /\ (owner[m] = Raw \/ \E i \in Ws : owner[m] = WO(i) /\ w[i].s = "own")
               /\ UNCHANGED g
               /\ LET w0 == [i \in Ws |-> IF owner[m] = WO(i) THEN [w[i] EXCEPT !.s = "done"] ELSE w[i]] IN
                  IF q[m] = <<>> THEN owner' = [owner EXCEPT ![m] = Free] /\ w' = w0 /\ UNCHANGED q
                  ELSE LET h == Head(q[m]) IN
                       /\ owner' = [owner EXCEPT ![m] = WO(h)]
                       /\ q' = [q EXCEPT ![m] = Tail(@)]
                       /\ w' = [w0 EXCEPT ![h].s = "handed"]
Destroy(i)  == /\ Begin
               /\ g[i].live /\ g' = [g EXCEPT ![i] = None]
               /\ IF g[i].held THEN ReleaseTo(g[i].m) ELSE NoRelease
Empty == [live |-> TRUE, m |-> 0, held |-> FALSE]
MoveOwner(i, j) == [m \in Ms |-> IF owner[m] = G(i) THEN G(j) ELSE owner[m]]
MoveCtor(j, i) == /\ Begin
               /\ g[i].live /\ ~g[j].live
               /\ g' = [g EXCEPT ![j] = g[i], ![i] = Empty]
               /\ owner' = MoveOwner(i, j) /\ UNCHANGED <<q, w>>
MoveAssign(j, i) == 
    /\ Begin /\ g[i].live /\ g[j].live
    /\ IF i = j
       THEN \* a guard assigned to itself keeps what it has, or gives it up cleanly
            \/ UNCHANGED g /\ NoRelease
            \/ g' = [g EXCEPT ![i] = Empty] /\ IF g[i].held THEN ReleaseTo(g[i].m) ELSE NoRelease
       ELSE /\ g' = [g EXCEPT ![j] = g[i], ![i] = Empty]
            /\ IF ~g[j].held THEN owner' = MoveOwner(i, j) /\ UNCHANGED <<q, w>>
               ELSE LET m == g[j].m IN
                    IF q[m] = <<>>
                    THEN owner' = [MoveOwner(i, j) EXCEPT ![m] = Free] /\ UNCHANGED <<q, w>>
                    ELSE LET h == Head(q[m]) IN
                         /\ owner' = [MoveOwner(i, j) EXCEPT ![m] = WO(h)]
                         /\ q' = [q EXCEPT ![m] = Tail(@)]
                         /\ w' = [w EXCEPT ![h].s = "handed"]
(* a coroutine that awaits lock(): suspends if the mutex is owned *)
Spawn(i, m) == 
    /\ Begin /\ w[i].s = "no" /\ UNCHANGED g
    /\ IF owner[m] = Free
       THEN owner' = [owner EXCEPT ![m] = WO(i)] /\ w' = [w EXCEPT ![i] = [s |-> "handed", m |-> m]] /\ UNCHANGED q
       ELSE q' = [q EXCEPT ![m] = Append(@, i)] /\ w' = [w EXCEPT ![i] = [s |-> "wait", m |-> m]] /\ UNCHANGED owner
(* the waiter continues as the owner; it may release the mutex at once or keep it *)
WAcq(i) == op = "busy" /\ w[i].s = "handed" /\ w' = [w EXCEPT ![i].s = "own"] /\ UNCHANGED <<owner, g, q, op>>
WRel(i) ==
    /\ op = "busy" /\ w[i].s = "own"
    /\ LET m == w[i].m
           w0 == [w EXCEPT ![i].s = "done"] IN
       IF q[m] = <<>> THEN owner' = [owner EXCEPT ![m] = Free] /\ w' = w0 /\ UNCHANGED q
       ELSE LET h == Head(q[m]) IN
            /\ owner' = [owner EXCEPT ![m] = WO(h)]
            /\ q' = [q EXCEPT ![m] = Tail(@)]
            /\ w' = [w0 EXCEPT ![h].s = "handed"]
    /\ UNCHANGED <<g, op>>
(* the operation returned; what guards and mutexes report then *)
Done(gm, gh, ml) ==
    /\ op = "busy" /\ op' = "idle"
    /\ \A i \in Ws : w[i].s # "handed"
    /\ \A i \in Gs : gm[i] = g[i].m /\ gh[i] = g[i].held
    /\ \A m \in Ms : ml[m] = (owner[m] # Free)
    /\ UNCHANGED <<owner, g, q, w>>

SoleHolder == \A i \in Gs : g[i].held => g[i].m # 0 /\ owner[g[i].m] = G(i)
OwnersExist == \A m \in Ms :
    /\ owner[m].t = "g" => g[owner[m].i].held /\ g[owner[m].i].m = m
    /\ owner[m].t = "w" => w[owner[m].i].s \in {"handed", "own"} /\ w[owner[m].i].m = m
NobodyForgotten == \A m \in Ms : q[m] # <<>> => owner[m] # Free
Inv == SoleHolder /\ OwnersExist /\ NobodyForgotten
=============================================================================
