-------------------------------- MODULE Alloc --------------------------------
(* Coroutine frames and the allocators their memory comes from.                                                          *)
(* Arena 0 is the default (stateless) allocator, the others are given with each coroutine. A coroutine is of one of the  *)
(* kinds "own" (task, generator, async_generator: lives until its handle is dropped), "ff" (fire and forget: lives until *)
(* it ended and its handle is dropped), "scope" and "launch" (nobody has a handle: lives until it ended), "join" (lives  *)
(* until the scope has no coroutines any more).                                                                           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Frames, Arenas, Kinds
VARIABLES fr,    \* the coroutines
          blk,   \* blocks of memory in use: [b |-> name, a |-> arena, n |-> size]
          cr     \* the coroutine being created, 0 if there is none
vars == <<fr, blk, cr>>
New == [st |-> "none", k |-> "own", a |-> 0, lazy |-> TRUE, b |-> 0, h |-> FALSE, in |-> FALSE, args |-> FALSE]
Init0 == fr = [f \in Frames |-> New] /\ blk = {} /\ cr = 0

HasHandle(k) == k \in {"own", "ff"}
(* ---------------------------------------------------------------- creating *)
Create(f, k, a, lazy, args) ==
    /\ cr = 0 /\ fr[f].st = "none"
    /\ fr' = [fr EXCEPT ![f] = [New EXCEPT !.st = "creating", !.k = k, !.a = a, !.lazy = lazy, !.args = args, !.h = HasHandle(k)]]
    /\ cr' = f /\ UNCHANGED blk
(* exactly one block, of exactly that allocator *)
Allocate(a, n, b) ==
    /\ cr # 0 /\ fr[cr].st = "creating" /\ fr[cr].a = a
    /\ \A x \in blk : x.b # b
    /\ blk' = blk \cup {[b |-> b, a |-> a, n |-> n]}
    /\ fr' = [fr EXCEPT ![cr].st = "memory", ![cr].b = b]
    /\ UNCHANGED cr
(* there is none left *)
NoMemory(a) ==
    /\ cr # 0 /\ fr[cr].st = "creating" /\ fr[cr].a = a
    /\ fr' = [fr EXCEPT ![cr].st = "failed"]
    /\ UNCHANGED <<blk, cr>>
(* an argument can not be moved into the frame *)
ArgThrows(f) ==
    /\ cr = f /\ fr[f].st = "memory"
    /\ fr' = [fr EXCEPT ![f].st = "broken", ![f].args = FALSE]
    /\ UNCHANGED <<blk, cr>>
Failed(f) ==
    /\ cr = f /\ fr[f].st = "failed"
    /\ cr' = 0 /\ fr' = [fr EXCEPT ![f].st = "gone", ![f].h = FALSE] /\ UNCHANGED blk
Created(f) ==
    /\ IF fr[f].lazy THEN cr = f /\ fr[f].st = "memory" /\ cr' = 0 ELSE fr[f].st \in {"run", "parked", "ended", "gone"} /\ UNCHANGED cr
    /\ fr' = [fr EXCEPT ![f].st = IF @ = "memory" THEN "made" ELSE @]
    /\ UNCHANGED blk

(* ---------------------------------------------------------------- running *)
Start(f, aligned, locals) ==
    /\ aligned
    /\ IF fr[f].lazy THEN fr[f].st = "made" /\ UNCHANGED cr ELSE fr[f].st = "memory" /\ cr = f /\ cr' = 0
    /\ fr' = [fr EXCEPT ![f].st = "run", ![f].in = locals]
    /\ UNCHANGED blk
Park(f) == fr[f].st = "run" /\ fr' = [fr EXCEPT ![f].st = "parked"] /\ UNCHANGED <<blk, cr>>
Back(f) == fr[f].st = "parked" /\ fr' = [fr EXCEPT ![f].st = "run"] /\ UNCHANGED <<blk, cr>>
End(f) == fr[f].st = "run" /\ fr' = [fr EXCEPT ![f].st = "ended"] /\ UNCHANGED <<blk, cr>>
Left(f) ==
    /\ fr[f].in /\ fr[f].st \in {"ended", "dying"}
    /\ fr' = [fr EXCEPT ![f].in = FALSE] /\ UNCHANGED <<blk, cr>>

(* ---------------------------------------------------------------- the frame goes *)
Drop(f) ==
    /\ fr[f].h /\ (fr[f].k = "own" => fr[f].st \in {"made", "parked", "ended"})
    /\ fr' = [fr EXCEPT ![f].h = FALSE, ![f].st = IF fr[f].k = "own" \/ @ = "made" THEN "dying" ELSE @]
    /\ UNCHANGED <<blk, cr>>
Handed(f) ==   \* starting a lazy fire and forget coroutine uses its handle up
    /\ fr[f].k = "ff" /\ fr[f].lazy /\ fr[f].h
    /\ fr' = [fr EXCEPT ![f].h = FALSE] /\ UNCHANGED <<blk, cr>>
ScopeBusy == \E f \in Frames : fr[f].k = "scope" /\ fr[f].st \in {"run", "parked"}
MayGo(f) == \/ fr[f].st \in {"dying", "broken"}
            \/ fr[f].k = "ff" /\ fr[f].st = "ended" /\ ~fr[f].h
            \/ fr[f].k \in {"launch", "scope"} /\ fr[f].st = "ended"
            \/ fr[f].k = "join" /\ fr[f].st \in {"made", "memory"} /\ ~ScopeBusy
(* the arguments are destroyed after the local variables, if the body has been started *)
ArgsGone(f) ==
    /\ fr[f].args /\ ~fr[f].in /\ MayGo(f)
    /\ fr' = [fr EXCEPT ![f].args = FALSE] /\ UNCHANGED <<blk, cr>>
(* the block returns to its arena, with the size it was allocated with *)
Free(a, n, b) ==
    /\ \E f \in Frames :
        /\ fr[f].b = b /\ fr[f].st \notin {"none", "gone"} /\ MayGo(f) /\ ~fr[f].in /\ ~fr[f].args
        /\ fr' = [fr EXCEPT ![f].st = CASE @ = "broken" -> "failed" [] OTHER -> "gone"]
        /\ cr' = IF cr = f /\ fr[f].k = "join" THEN 0 ELSE cr
    /\ [b |-> b, a |-> a, n |-> n] \in blk
    /\ blk' = blk \ {[b |-> b, a |-> a, n |-> n]}
(* the coroutine of join_future() does nothing that can be seen *)
Joining(f) ==
    /\ fr[f].k = "join" /\ (fr[f].st = "memory" \/ fr[f].st = "gone")
    /\ fr' = [fr EXCEPT ![f].st = IF @ = "memory" THEN "made" ELSE @]
    /\ cr' = (IF cr = f THEN 0 ELSE cr) /\ UNCHANGED blk

(* Nothing more happens by itself: every coroutine that is over has given its memory back. *)
Quiet(blocks) ==
    /\ cr = 0
    /\ \A f \in Frames : fr[f].st \notin {"none", "gone"} => ~MayGo(f)
    /\ {x.b : x \in blk} = blocks
    /\ UNCHANGED vars
Finished(instances) ==
    /\ \A f \in Frames : fr[f].st \in {"none", "gone"}
    /\ blk = {} /\ cr = 0 /\ instances = 0
    /\ UNCHANGED vars

(* ---------------------------------------------------------------- properties *)
Holding(f) == fr[f].st \notin {"none", "creating", "failed", "gone"}
OneEach == \A x \in blk : Cardinality({f \in Frames : Holding(f) /\ fr[f].b = x.b}) = 1
Fits == \A f \in Frames : Holding(f) => \E x \in blk : x.b = fr[f].b /\ x.a = fr[f].a
Distinct == \A x, y \in blk : x.b = y.b => x = y
Inv == OneEach /\ Fits /\ Distinct
GoneStays == [][\A f \in Frames : fr[f].st = "gone" => fr'[f].st = "gone"]_vars
=============================================================================
