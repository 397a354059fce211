------------------------------- MODULE Queue -------------------------------
(* asyncpp::queue as seen by its users: a bounded first-in-first-out queue with suspending pop and push, first come    *)
(* first served; clearing fails pending pushes; moving carries elements and waiters, replacing fails the old waiters.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Actors, Qs      \* client coroutines; queue objects
VARIABLES q,    \* [Qs -> [items, max, dd (default dispatcher), pops, pushes (suspended actors, oldest first)]]
          ps,
          acc, out   \* history: accepted values per order of acceptance, values handed out or dropped
vars == <<q, ps, acc, out>>
Idle == [s |-> "idle"]
InSeq(s) == {s[i] : i \in 1..Len(s)}
NewQ(max, dd) == [items |-> <<>>, max |-> max, dd |-> dd, pops |-> <<>>, pushes |-> <<>>]
InitWith(f) == q = f /\ ps = [a \in Actors |-> Idle] /\ acc = <<>> /\ out = <<>>

Begin(a, rec) == ps[a] = Idle /\ ps' = [ps EXCEPT ![a] = [ph |-> "called"] @@ rec] /\ UNCHANGED <<q, acc, out>>
CallPop(a, k, d, th, c)     == Begin(a, [s |-> "pop", k |-> k, d |-> d, th |-> th, c |-> c])
CallPush(a, k, v, d, th, c) == Begin(a, [s |-> "push", k |-> k, v |-> v, d |-> d, th |-> th, c |-> c])
CallTry(a, op, k, v, th)    == op \in {"trypop", "trypush"} /\ Begin(a, [s |-> op, k |-> k, v |-> v, th |-> th])
CallFail(a, k, th)          == Begin(a, [s |-> "tryfail", k |-> k, th |-> th])   \* an emplace whose element fails to be constructed
CallSize(a, k)              == Begin(a, [s |-> "size", k |-> k])
CallEmpty(a, k)             == Begin(a, [s |-> "empty", k |-> k])
CallClear(a, k, th)         == Begin(a, [s |-> "clear", k |-> k, th |-> th])
CallMove(a, k, from, th)    == Begin(a, [s |-> "move", k |-> k, from |-> from, th |-> th])

(* a suspended operation is completed with result r by actor `by` *)
Rel(b, r, by) == [s |-> ps[b].s, ph |-> "rel", r |-> r, d |-> ps[b].d, by |-> by]
Done(a, r) == [ph |-> "done", r |-> r] @@ ps[a]
Suspend(a, k) == [ps[a] EXCEPT !.ph = "susp", !.d = IF @ = 0 THEN q[k].dd ELSE @]

PopLin(a) ==
    /\ ps[a].s \in {"pop", "trypop"} /\ ps[a].ph = "called"
    /\ LET k == ps[a].k
           Q == q[k] IN
       CASE Q.items # <<>> ->
              /\ out' = Append(out, Head(Q.items))
              /\ IF Q.pushes = <<>>
                 THEN /\ q' = [q EXCEPT ![k].items = Tail(@)]
                      /\ ps' = [ps EXCEPT ![a] = Done(a, Head(Q.items))]
                      /\ UNCHANGED acc
                 ELSE LET b == Head(Q.pushes) IN
                      /\ q' = [q EXCEPT ![k].items = Append(Tail(@), ps[b].v), ![k].pushes = Tail(@)]
                      /\ ps' = [ps EXCEPT ![a] = Done(a, Head(Q.items)), ![b] = Rel(b, 1, a)]
                      /\ acc' = Append(acc, ps[b].v)
         [] Q.items = <<>> /\ Q.pushes # <<>> ->   \* only with a bound of zero: taken directly from the oldest push
              LET b == Head(Q.pushes) IN
              /\ q' = [q EXCEPT ![k].pushes = Tail(@)]
              /\ ps' = [ps EXCEPT ![a] = Done(a, ps[b].v), ![b] = Rel(b, 1, a)]
              /\ acc' = Append(acc, ps[b].v) /\ out' = Append(out, ps[b].v)
         [] Q.items = <<>> /\ Q.pushes = <<>> /\ ps[a].s = "trypop" ->
              ps' = [ps EXCEPT ![a] = Done(a, 0)] /\ UNCHANGED <<q, acc, out>>
         [] Q.items = <<>> /\ Q.pushes = <<>> /\ ps[a].s = "pop" ->
              /\ q' = [q EXCEPT ![k].pops = Append(@, a)]
              /\ ps' = [ps EXCEPT ![a] = Suspend(a, k)] /\ UNCHANGED <<acc, out>>
PushLin(a) ==
    /\ ps[a].s \in {"push", "trypush"} /\ ps[a].ph = "called"
    /\ LET k == ps[a].k
           Q == q[k] IN
       CASE Q.pops # <<>> ->
              LET b == Head(Q.pops) IN
              /\ q' = [q EXCEPT ![k].pops = Tail(@)]
              /\ ps' = [ps EXCEPT ![a] = Done(a, 1), ![b] = Rel(b, ps[a].v, a)]
              /\ acc' = Append(acc, ps[a].v) /\ out' = Append(out, ps[a].v)
         [] Q.pops = <<>> /\ Len(Q.items) < Q.max ->
              /\ q' = [q EXCEPT ![k].items = Append(@, ps[a].v)]
              /\ ps' = [ps EXCEPT ![a] = Done(a, 1)]
              /\ acc' = Append(acc, ps[a].v) /\ UNCHANGED out
         [] Q.pops = <<>> /\ Len(Q.items) >= Q.max /\ ps[a].s = "trypush" ->
              ps' = [ps EXCEPT ![a] = Done(a, 0)] /\ UNCHANGED <<q, acc, out>>
         [] Q.pops = <<>> /\ Len(Q.items) >= Q.max /\ ps[a].s = "push" ->
              /\ q' = [q EXCEPT ![k].pushes = Append(@, a)]
              /\ ps' = [ps EXCEPT ![a] = Suspend(a, k)] /\ UNCHANGED <<acc, out>>
(* an emplace that does not get an element: nothing happens, unless there is no room for it anyway. Whether the     *)
(* element is constructed before the look at the room is left open.                                                  *)
FailLin(a) ==
    /\ ps[a].s = "tryfail" /\ ps[a].ph = "called"
    /\ \/ ps' = [ps EXCEPT ![a] = Done(a, 2)]
       \/ LET Q == q[ps[a].k] IN Q.pops = <<>> /\ Len(Q.items) >= Q.max /\ ps' = [ps EXCEPT ![a] = Done(a, 0)]
    /\ UNCHANGED <<q, acc, out>>
QueryLin(a) ==
    /\ ps[a].s \in {"size", "empty"} /\ ps[a].ph = "called"
    /\ LET n == Len(q[ps[a].k].items) + Len(q[ps[a].k].pushes) IN
       ps' = [ps EXCEPT ![a] = Done(a, IF ps[a].s = "size" THEN n ELSE IF n = 0 THEN 1 ELSE 0)]
    /\ UNCHANGED <<q, acc, out>>
FailAll(S, a) == [b \in Actors |-> IF b \in S THEN Rel(b, 0, a) ELSE IF b = a THEN Done(a, 0) ELSE ps[b]]
ClearLin(a) ==
    /\ ps[a].s = "clear" /\ ps[a].ph = "called"
    /\ LET k == ps[a].k IN
       /\ ps' = FailAll(InSeq(q[k].pushes), a)
       /\ q' = [q EXCEPT ![k].items = <<>>, ![k].pushes = <<>>]
       /\ out' = out \o q[k].items /\ UNCHANGED acc
(* queue k is replaced by the contents of queue `from`, which is left empty and keeps its bound and dispatcher; *)
(* a queue that is moved to itself does not change                                                               *)
MoveLin(a) ==
    /\ ps[a].s = "move" /\ ps[a].ph = "called"
    /\ IF ps[a].k = ps[a].from THEN ps' = [ps EXCEPT ![a] = Done(a, 0)] /\ UNCHANGED <<q, acc, out>> ELSE
       LET k == ps[a].k
           f == ps[a].from IN
       /\ ps' = FailAll(InSeq(q[k].pops) \union InSeq(q[k].pushes), a)
       /\ q' = [q EXCEPT ![k] = q[f], ![f] = NewQ(q[f].max, q[f].dd)]
       /\ out' = out \o q[k].items /\ UNCHANGED acc
Silent(a) == PopLin(a) \/ PushLin(a) \/ FailLin(a) \/ QueryLin(a) \/ ClearLin(a) \/ MoveLin(a)

InlineDone(a) == \A b \in Actors : ~(ps[b].s \in {"pop", "push"} /\ ps[b].ph = "rel" /\ ps[b].by = a /\ ps[b].d = 0)
Finish(a) == ps' = [ps EXCEPT ![a] = Idle] /\ UNCHANGED <<q, acc, out>>
Resume(a, r, th, c) ==
    /\ ps[a].s \in {"pop", "push"}
    /\ \/ ps[a].ph = "done" /\ th = ps[a].th /\ c = ps[a].c /\ InlineDone(a)
       \/ /\ ps[a].ph = "rel"
          /\ LET b == ps[a].by IN
             IF ps[a].d # 0 THEN c = ps[a].d
             ELSE ps[b].s # "idle" /\ ps[b].ph = "done" /\ ps[b].th = th
    /\ r = ps[a].r
    /\ Finish(a)
Ret(a, op, r) ==
    /\ op \in {"trypop", "trypush", "tryfail", "size", "empty", "clear", "move"}
    /\ ps[a].s = op /\ ps[a].ph = "done" /\ r = ps[a].r /\ InlineDone(a)
    /\ Finish(a)
Waiting == UNION {InSeq(q[k].pops) \union InSeq(q[k].pushes) : k \in Qs}
Quiescent(susp) == Waiting = susp /\ (\A a \in Actors : ps[a] = Idle \/ a \in susp) /\ UNCHANGED vars

(* ---------------------------------------------------------------- properties *)
BoundOK == \A k \in Qs : Len(q[k].items) <= q[k].max
NoIdleWaiters == \A k \in Qs :
    /\ q[k].pops # <<>> => q[k].items = <<>> /\ q[k].pushes = <<>>
    /\ q[k].pushes # <<>> => Len(q[k].items) = q[k].max
WaitersOK == Waiting = {a \in Actors : ps[a].s \in {"pop", "push"} /\ ps[a].ph = "susp"}
(* with a single queue: what was handed out is a prefix of what was accepted, the rest is stored *)
Fifo == \A k \in Qs : (Qs = {k}) => acc = out \o q[k].items
(* nothing is lost or duplicated *)
Conserved == Len(acc) = Len(out) + Cardinality(UNION {{<<k, i>> : i \in 1..Len(q[k].items)} : k \in Qs})
Inv == BoundOK /\ NoIdleWaiters /\ WaitersOK /\ Fifo /\ Conserved
=============================================================================
