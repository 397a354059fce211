------------------------------- MODULE Timer -------------------------------
(* asyncpp::timer: entries with a due time and an optional stop token, pushed work, coroutines waiting; one thread.    *)
(* Times are absolute (ms, us or ns). Token 0 means "no token".                                                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Ids,      \* entries, pushed work and waiting coroutines; they act themselves while they run
          Clients,
          Toks
VARIABLES ent,      \* per id: [st, kind, due, tok]
                    \* st: "none" "wait" "cancelled" "decided" (will report success) "run" "done"; kind: "e" "p" "a"
          pq,       \* pushed and not yet run, in order
          now, stopped, exit,
          busy,     \* what the timer thread runs, 0 if nothing
          tth,      \* the timer's thread, once known
          cth,      \* threads of clients
          ps
vars == <<ent, pq, now, stopped, exit, busy, tth, cth, ps>>
Actors == Clients \union Ids
NoTh == 1000
Idle == [s |-> "idle"]
None == [st |-> "none", kind |-> "e", due |-> 0, tok |-> 0]
Init == /\ ent = [i \in Ids |-> None] /\ pq = <<>> /\ now = 0 /\ stopped = {} /\ exit = FALSE /\ busy = 0
        /\ tth = NoTh /\ cth = {} /\ ps = [a \in Actors |-> Idle]
(* An operation is called by a client or by whatever the timer runs *)
Begin(a, th, rec) ==
    /\ ps[a] = Idle /\ ps' = [ps EXCEPT ![a] = [ph |-> "called"] @@ rec]
    /\ IF a \in Ids /\ busy = a THEN th = tth /\ UNCHANGED cth ELSE th # tth /\ cth' = cth \union {th}
    /\ UNCHANGED <<ent, pq, now, stopped, exit, busy, tth>>
Fresh(id) == ent[id].st = "none" /\ \A b \in Actors : ps[b].s \in {"sched", "push"} => ps[b].id # id
CallSched(a, id, due, tok, th) == id \in Ids /\ Fresh(id) /\ tok \in Toks \union {0} /\ Begin(a, th, [s |-> "sched", id |-> id, due |-> due, tok |-> tok])
CallPush(a, id, th)  == id \in Ids /\ Fresh(id) /\ Begin(a, th, [s |-> "push", id |-> id])
CallEmpty(a, th)     == Begin(a, th, [s |-> "empty"])   \* schedule or push of an empty function
CallStop(a, tok, th) == tok \in Toks /\ Begin(a, th, [s |-> "stop", tok |-> tok])
CallAwait(a, due, tok, th) == a \in Ids /\ ent[a].st = "none" /\ Begin(a, th, [s |-> "await", due |-> due, tok |-> tok, late |-> now >= due])
CallDestroy(a, th)   == Begin(a, th, [s |-> "destroy"])

Enter(id, kind, due, tok) ==
    ent' = [ent EXCEPT ![id] = [st |-> IF tok \in stopped THEN "cancelled" ELSE "wait", kind |-> kind, due |-> due, tok |-> tok]]
Fin(a, r) == ps' = [ps EXCEPT ![a] = [@ EXCEPT !.ph = "done"] @@ [r |-> r]]
SchedLin(a) ==
    /\ ps[a].s = "sched" /\ ps[a].ph = "called"
    /\ IF exit THEN Fin(a, 0) /\ UNCHANGED ent
       ELSE Enter(ps[a].id, "e", ps[a].due, ps[a].tok) /\ Fin(a, 1)
    /\ UNCHANGED <<pq, now, stopped, exit, busy, tth, cth>>
PushLin(a) ==
    /\ ps[a].s = "push" /\ ps[a].ph = "called"
    /\ IF exit THEN Fin(a, 0) /\ UNCHANGED <<ent, pq>>
       ELSE Enter(ps[a].id, "p", 0, 0) /\ pq' = Append(pq, ps[a].id) /\ Fin(a, 1)
    /\ UNCHANGED <<now, stopped, exit, busy, tth, cth>>
EmptyLin(a) ==
    /\ ps[a].s = "empty" /\ ps[a].ph = "called" /\ Fin(a, IF exit THEN 0 ELSE 1)
    /\ UNCHANGED <<ent, pq, now, stopped, exit, busy, tth, cth>>
AwaitLin(a) ==
    /\ ps[a].s = "await" /\ ps[a].ph = "called"
    /\ \/ /\ now >= ps[a].due /\ Fin(a, 1) /\ UNCHANGED ent           \* already due: does not suspend
       \/ /\ ~ps[a].late /\ ~exit
          /\ Enter(a, "a", ps[a].due, ps[a].tok) /\ ps' = [ps EXCEPT ![a].ph = "susp"]
       \/ /\ ~ps[a].late /\ exit /\ Fin(a, 0) /\ UNCHANGED ent    \* throws
    /\ UNCHANGED <<pq, now, stopped, exit, busy, tth, cth>>
(* a stop request reaches every entry scheduled with the token and not yet decided *)
StopSet(a) ==
    /\ ps[a].s = "stop" /\ ps[a].ph = "called"
    /\ stopped' = stopped \union {ps[a].tok}
    /\ Fin(a, IF ps[a].tok \in stopped THEN 0 ELSE 1)
    /\ UNCHANGED <<ent, pq, now, exit, busy, tth, cth>>
Cancel(id) ==
    /\ ent[id].st = "wait" /\ ent[id].tok \in stopped
    /\ ent' = [ent EXCEPT ![id].st = "cancelled"]
    /\ UNCHANGED <<pq, now, stopped, exit, busy, tth, cth, ps>>
DestroyLin(a) == /\ ps[a].s = "destroy" /\ ps[a].ph = "called" /\ exit' = TRUE /\ Fin(a, 1)
                 /\ UNCHANGED <<ent, pq, now, stopped, busy, tth, cth>>
(* the timer thread decides to complete a due entry with success: the earliest of those with (without) a token *)
HasTok(i) == ent[i].tok # 0
Deciding == {i \in Ids : ent[i].st = "decided"}
Decide(id) ==
    /\ busy = 0 /\ Deciding = {}
    /\ ent[id].st = "wait" /\ ent[id].kind # "p" /\ ent[id].due <= now
    /\ \A j \in Ids : (ent[j].st = "wait" /\ ent[j].kind # "p" /\ HasTok(j) = HasTok(id)) => ent[j].due >= ent[id].due
    /\ ent' = [ent EXCEPT ![id].st = "decided"]
    /\ UNCHANGED <<pq, now, stopped, exit, busy, tth, cth, ps>>
Silent == (\E a \in Actors : SchedLin(a) \/ PushLin(a) \/ EmptyLin(a) \/ AwaitLin(a) \/ StopSet(a) \/ DestroyLin(a))
          \/ (\E i \in Ids : Cancel(i) \/ Decide(i))
(* time passes only while the timer thread has nothing to do, or is busy with a callback *)
Owes(t) == \/ Deciding # {} \/ pq # <<>>
           \/ \E i \in Ids : ent[i].st = "cancelled" \/ (ent[i].st = "wait" /\ (exit \/ ent[i].due < t))
(* if strict; otherwise threads may be arbitrarily slow *)
Tick(t, strict) == t > now /\ (busy # 0 \/ ~strict \/ ~Owes(t)) /\ now' = t /\ UNCHANGED <<ent, pq, stopped, exit, busy, tth, cth, ps>>

(* a callback starts on the timer thread *)
Fire(id, k, ok, th) ==
    /\ id \in Ids /\ busy = 0
    /\ th \notin cth /\ (tth = NoTh \/ th = tth) /\ tth' = th
    /\ k = ent[id].kind
    /\ CASE ent[id].kind = "p" -> ok /\ pq # <<>> /\ id = Head(pq) /\ pq' = Tail(pq) /\ Deciding = {}
         [] ok /\ ent[id].kind # "p" -> ent[id].st = "decided" /\ UNCHANGED pq
         [] ~ok /\ ent[id].kind # "p" -> (ent[id].st = "cancelled" \/ (exit /\ ent[id].st = "wait")) /\ Deciding = {} /\ UNCHANGED pq
    /\ ent' = [ent EXCEPT ![id].st = "run"]
    /\ busy' = id
    /\ IF k = "a" THEN ps[id].s = "await" /\ ps[id].ph = "susp" /\ ps' = [ps EXCEPT ![id] = Idle] ELSE UNCHANGED ps
    /\ UNCHANGED <<now, stopped, exit, cth>>
End(id) == /\ busy = id /\ ps[id] = Idle /\ busy' = 0 /\ ent' = [ent EXCEPT ![id].st = "done"]
           /\ UNCHANGED <<pq, now, stopped, exit, tth, cth, ps>>
Ret(a) == ps' = [ps EXCEPT ![a] = Idle] /\ UNCHANGED <<ent, pq, now, stopped, exit, busy, tth, cth>>
RetOp(a, s, r) == /\ s \in {"sched", "push", "empty", "await"} /\ ps[a].s = s /\ ps[a].ph = "done" /\ r = ps[a].r /\ Ret(a)
RetStop(a, r)  == /\ ps[a].s = "stop" /\ ps[a].ph = "done" /\ r = ps[a].r
                  /\ r = 1 => \A i \in Ids : ~(ent[i].st = "wait" /\ ent[i].tok = ps[a].tok)
                  /\ Ret(a)
RetDestroy(a)  == /\ ps[a].s = "destroy" /\ ps[a].ph = "done" /\ busy = 0
                  /\ \A i \in Ids : ent[i].st \in {"none", "done"}
                  /\ Ret(a)
Quiescent == (\A a \in Actors : ps[a] = Idle) /\ (\A i \in Ids : ent[i].st \in {"none", "done"}) /\ UNCHANGED vars

(* ---------------------------------------------------------------- properties *)
NotEarly == \A i \in Ids : ent[i].st = "decided" => ent[i].due <= now
OneAtATime == Cardinality({i \in Ids : ent[i].st = "run"}) <= 1 /\ (busy # 0 <=> \E i \in Ids : ent[i].st = "run")
PushedKnown == \A i \in DOMAIN pq : ent[pq[i]].kind = "p" /\ ent[pq[i]].st = "wait"
Inv == NotEarly /\ OneAtATime /\ PushedKnown
NeverBack == [][\A i \in Ids : /\ ent[i].st = "done" => ent'[i].st = "done"
                               /\ ent[i].st = "cancelled" => ent'[i].st \in {"cancelled", "run"}]_vars
=============================================================================
