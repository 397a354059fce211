------------------------------ MODULE Channel ------------------------------
(* asyncpp::channel as seen by its users: a rendezvous with first-come-first-served waiting and closing.               *)
(* Values are positive numbers; 0 stands for "no value" (end).                                                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Actors
VARIABLES closed, R, Wq,   \* suspended readers and writers, oldest first (at most one of the two is non-empty)
          ps,
          sent, got        \* history: values in the order their writes / reads took effect
vars == <<closed, R, Wq, ps, sent, got>>
Idle == [s |-> "idle"]
InSeq(q) == {q[i] : i \in 1..Len(q)}
Init == closed = FALSE /\ R = <<>> /\ Wq = <<>> /\ ps = [a \in Actors |-> Idle] /\ sent = <<>> /\ got = <<>>

(* read, write: d is the dispatcher to continue on (0: none), th/c thread and current dispatcher of the caller *)
CallRead(a, d, th, c) ==
    /\ ps[a] = Idle
    /\ ps' = [ps EXCEPT ![a] = [s |-> "read", ph |-> "called", d |-> d, th |-> th, c |-> c]]
    /\ UNCHANGED <<closed, R, Wq, sent, got>>
CallWrite(a, v, d, th, c) ==
    /\ ps[a] = Idle
    /\ ps' = [ps EXCEPT ![a] = [s |-> "write", ph |-> "called", v |-> v, d |-> d, th |-> th, c |-> c]]
    /\ UNCHANGED <<closed, R, Wq, sent, got>>
CallTry(a, op, v, th) ==
    /\ ps[a] = Idle /\ op \in {"tryr", "tryw"}
    /\ ps' = [ps EXCEPT ![a] = [s |-> op, ph |-> "called", v |-> v, th |-> th]]
    /\ UNCHANGED <<closed, R, Wq, sent, got>>
CallClose(a, th) ==
    /\ ps[a] = Idle
    /\ ps' = [ps EXCEPT ![a] = [s |-> "close", ph |-> "called", th |-> th]]
    /\ UNCHANGED <<closed, R, Wq, sent, got>>
CallQuery(a) ==
    /\ ps[a] = Idle
    /\ ps' = [ps EXCEPT ![a] = [s |-> "query", ph |-> "called"]]
    /\ UNCHANGED <<closed, R, Wq, sent, got>>

(* r: what the operation reports: a value / 0 for reads, 1 / 0 for writes *)
Rel(b, r, by) == [s |-> ps[b].s, ph |-> "rel", r |-> r, d |-> ps[b].d, by |-> by]
Pair(v) == sent' = Append(sent, v) /\ got' = Append(got, v)

ReadLin(a) ==
    /\ ps[a].s \in {"read", "tryr"} /\ ps[a].ph = "called"
    /\ CASE closed -> ps' = [ps EXCEPT ![a] = [ph |-> "done", r |-> 0] @@ @] /\ UNCHANGED <<R, Wq, sent, got>>
         [] ~closed /\ Wq # <<>> ->
               LET b == Head(Wq) IN
               /\ Wq' = Tail(Wq)
               /\ ps' = [ps EXCEPT ![a] = [ph |-> "done", r |-> ps[b].v] @@ @, ![b] = Rel(b, 1, a)]
               /\ Pair(ps[b].v) /\ UNCHANGED R
         [] ~closed /\ Wq = <<>> /\ ps[a].s = "read" ->
               R' = Append(R, a) /\ ps' = [ps EXCEPT ![a].ph = "susp"] /\ UNCHANGED <<Wq, sent, got>>
         [] ~closed /\ Wq = <<>> /\ ps[a].s = "tryr" ->
               ps' = [ps EXCEPT ![a] = [ph |-> "done", r |-> 0] @@ @] /\ UNCHANGED <<R, Wq, sent, got>>
    /\ UNCHANGED closed
WriteLin(a) ==
    /\ ps[a].s \in {"write", "tryw"} /\ ps[a].ph = "called"
    /\ CASE closed -> ps' = [ps EXCEPT ![a] = [ph |-> "done", r |-> 0] @@ @] /\ UNCHANGED <<R, Wq, sent, got>>
         [] ~closed /\ R # <<>> ->
               LET b == Head(R) IN
               /\ R' = Tail(R)
               /\ ps' = [ps EXCEPT ![a] = [ph |-> "done", r |-> 1] @@ @, ![b] = Rel(b, ps[a].v, a)]
               /\ Pair(ps[a].v) /\ UNCHANGED Wq
         [] ~closed /\ R = <<>> /\ ps[a].s = "write" ->
               Wq' = Append(Wq, a) /\ ps' = [ps EXCEPT ![a].ph = "susp"] /\ UNCHANGED <<R, sent, got>>
         [] ~closed /\ R = <<>> /\ ps[a].s = "tryw" ->
               ps' = [ps EXCEPT ![a] = [ph |-> "done", r |-> 0] @@ @] /\ UNCHANGED <<R, Wq, sent, got>>
    /\ UNCHANGED closed
CloseLin(a) ==
    /\ ps[a].s = "close" /\ ps[a].ph = "called"
    /\ ps' = [b \in Actors |-> IF b \in InSeq(R) \union InSeq(Wq) THEN Rel(b, 0, a)
                               ELSE IF b = a THEN [ph |-> "done"] @@ ps[a] ELSE ps[b]]
    /\ closed' = TRUE /\ R' = <<>> /\ Wq' = <<>>
    /\ UNCHANGED <<sent, got>>
QueryLin(a) ==
    /\ ps[a].s = "query" /\ ps[a].ph = "called"
    /\ ps' = [ps EXCEPT ![a] = [ph |-> "done", v |-> closed] @@ @]
    /\ UNCHANGED <<closed, R, Wq, sent, got>>
Silent(a) == ReadLin(a) \/ WriteLin(a) \/ CloseLin(a) \/ QueryLin(a)

(* Whoever completes a suspended operation that has no dispatcher resumes it before completing itself. *)
InlineDone(a) == \A b \in Actors : ~(ps[b].s \in {"read", "write"} /\ ps[b].ph = "rel" /\ ps[b].by = a /\ ps[b].d = 0)
(* a read or write completes with result r *)
Resume(a, r, th, c) ==
    /\ ps[a].s \in {"read", "write"}
    /\ \/ ps[a].ph = "done" /\ th = ps[a].th /\ c = ps[a].c /\ InlineDone(a)
       \/ /\ ps[a].ph = "rel"
          /\ LET b == ps[a].by IN
             IF ps[a].d # 0 THEN c = ps[a].d
             ELSE ps[b].s # "idle" /\ ps[b].ph = "done" /\ ps[b].th = th
    /\ r = ps[a].r
    /\ ps' = [ps EXCEPT ![a] = Idle]
    /\ UNCHANGED <<closed, R, Wq, sent, got>>
RetTry(a, r) ==
    /\ ps[a].s \in {"tryr", "tryw"} /\ ps[a].ph = "done" /\ r = ps[a].r /\ InlineDone(a)
    /\ ps' = [ps EXCEPT ![a] = Idle]
    /\ UNCHANGED <<closed, R, Wq, sent, got>>
RetClose(a) ==
    /\ ps[a].s = "close" /\ ps[a].ph = "done" /\ InlineDone(a)
    /\ ps' = [ps EXCEPT ![a] = Idle]
    /\ UNCHANGED <<closed, R, Wq, sent, got>>
RetQuery(a, v) ==
    /\ ps[a].s = "query" /\ ps[a].ph = "done" /\ v = ps[a].v
    /\ ps' = [ps EXCEPT ![a] = Idle]
    /\ UNCHANGED <<closed, R, Wq, sent, got>>
Quiescent(susp) ==
    /\ InSeq(R) \union InSeq(Wq) = susp
    /\ \A a \in Actors : ps[a] = Idle \/ a \in susp
    /\ UNCHANGED vars

(* ---------------------------------------------------------------- properties *)
NotBoth == R = <<>> \/ Wq = <<>>
ClosedIsEmpty == closed => R = <<>> /\ Wq = <<>>
WaitersOK == /\ InSeq(R) = {a \in Actors : ps[a].s = "read" /\ ps[a].ph = "susp"}
             /\ InSeq(Wq) = {a \in Actors : ps[a].s = "write" /\ ps[a].ph = "susp"}
Delivered == sent = got
Inv == NotBoth /\ ClosedIsEmpty /\ WaitersOK /\ Delivered
=============================================================================
