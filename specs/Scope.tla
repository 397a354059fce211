------------------------------- MODULE Scope -------------------------------
(* async_launch_scope as seen by its users. Clients, launched tasks (which may use the scope themselves) and futures made *)
(* from the scope are all actors; a future is a joiner nobody observes directly.                                          *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Clients, Tasks, Futs
Actors == Clients \cup Tasks \cup Futs

VARIABLES n,        \* tasks in flight
          joiner,   \* the actor suspended in join(), 0 if nobody
          ps        \* what each actor is doing
vars == <<n, joiner, ps>>

Idle == [s |-> "idle"]
None == [s |-> "none"]    \* task not launched, future not made

Init0 ==
    /\ n = 0 /\ joiner = 0
    /\ ps = [a \in Actors |-> IF a \in Clients THEN Idle ELSE None]

(* a released joiner of actor t that has not continued yet *)
Pending(t) == \E b \in Actors : ps[b].s = "join" /\ ps[b].ph = "rel" /\ ps[b].by = t

(* ---------------------------------------------------------------- launching *)
(* sync: the task ends without suspending. The task starts within the call. *)
CallLaunch(a, t, sync, th) ==
    /\ ps[a] = Idle /\ t \in Tasks /\ ps[t] = None
    /\ ps' = [ps EXCEPT ![a] = [s |-> "launch", t |-> t, sync |-> sync],
                        ![t] = [s |-> "called", th |-> th]]
    /\ UNCHANGED <<n, joiner>>
LaunchLin(t) ==
    /\ t \in Tasks /\ ps[t].s = "called"
    /\ n' = n + 1
    /\ ps' = [ps EXCEPT ![t] = [s |-> "born", th |-> ps[t].th]]
    /\ UNCHANGED joiner
TaskStart(t, th) ==
    /\ ps[t].s = "born" /\ ps[t].th = th
    /\ ps' = [ps EXCEPT ![t] = Idle]
    /\ UNCHANGED <<n, joiner>>
TaskEnd(t, th) ==
    /\ t \in Tasks /\ ps[t] = Idle
    /\ ps' = [ps EXCEPT ![t] = [s |-> "ended", th |-> th]]
    /\ UNCHANGED <<n, joiner>>
(* The scope learns that the task is over. The last one releases the joiner. *)
TaskFin(t) ==
    /\ t \in Tasks /\ ps[t].s = "ended"
    /\ n' = n - 1
    /\ IF n' = 0 /\ joiner # 0
       THEN /\ ps' = [ps EXCEPT ![joiner] = [s |-> "join", ph |-> "rel", by |-> t, th |-> ps[t].th], ![t] = [s |-> "gone"]]
            /\ joiner' = 0
       ELSE /\ ps' = [ps EXCEPT ![t] = [s |-> "gone"]]
            /\ UNCHANGED joiner
RetLaunch(a) ==
    /\ ps[a].s = "launch"
    /\ ps[ps[a].t].s \notin {"called", "born"}
    /\ ps[a].sync => ps[ps[a].t].s = "gone" /\ ~Pending(ps[a].t)
    /\ ps' = [ps EXCEPT ![a] = Idle]
    /\ UNCHANGED <<n, joiner>>

(* ---------------------------------------------------------------- joining *)
CallJoin(a, th) ==
    /\ a \in Clients /\ ps[a] = Idle
    /\ ps' = [ps EXCEPT ![a] = [s |-> "join", ph |-> "called", th |-> th]]
    /\ UNCHANGED <<n, joiner>>
(* Only one join may wait at a time; another one is refused, and may be refused while that one is beginning or ending. *)
Joining(a) == \E b \in Actors \ {a} : ps[b].s = "join"
JoinLin(a) ==
    /\ ps[a].s = "join" /\ ps[a].ph = "called"
    /\ \/ n = 0 /\ ps' = [ps EXCEPT ![a].ph = "ready"] /\ UNCHANGED joiner
       \/ n > 0 /\ joiner = 0 /\ ps' = [ps EXCEPT ![a].ph = "susp"] /\ joiner' = a
       \/ n > 0 /\ Joining(a) /\ ps' = [ps EXCEPT ![a].ph = "dup"] /\ UNCHANGED joiner
    /\ UNCHANGED n
Resume(a, th, v) ==
    /\ a \in Clients /\ ps[a].s = "join" /\ ps[a].ph \in {"ready", "dup", "rel"}
    /\ ps[a].th = th
    /\ v = IF ps[a].ph = "dup" THEN "dup" ELSE "ok"
    /\ ps' = [ps EXCEPT ![a] = Idle]
    /\ UNCHANGED <<n, joiner>>

(* ---------------------------------------------------------------- futures *)
CallFut(a, f, th) ==
    /\ ps[a] = Idle /\ f \in Futs /\ ps[f] = None
    /\ ps' = [ps EXCEPT ![a] = [s |-> "fut", ph |-> "made", f |-> f], ![f] = [s |-> "join", ph |-> "called", th |-> th]]
    /\ UNCHANGED <<n, joiner>>
FutDone(f) ==
    /\ f \in Futs /\ ps[f].s = "join" /\ ps[f].ph \in {"ready", "dup", "rel"}
    /\ ps' = [ps EXCEPT ![f] = [s |-> "fdone", v |-> IF ps[f].ph = "dup" THEN "dup" ELSE "ok"]]
    /\ UNCHANGED <<n, joiner>>
RetFut(a) ==
    /\ ps[a].s = "fut"
    /\ LET f == ps[a].f IN ps[f].s = "join" => ps[f].ph \in {"susp", "rel"}
    /\ ps' = [ps EXCEPT ![a] = Idle]
    /\ UNCHANGED <<n, joiner>>

(* ---------------------------------------------------------------- queries: tasks in flight, future ready *)
CallQuery(a) ==
    /\ ps[a] = Idle
    /\ ps' = [ps EXCEPT ![a] = [s |-> "query", ph |-> "called"]]
    /\ UNCHANGED <<n, joiner>>
QueryLin(a) ==
    /\ ps[a].s = "query" /\ ps[a].ph = "called"
    /\ ps' = [ps EXCEPT ![a] = [s |-> "query", ph |-> "done", v |-> n]]
    /\ UNCHANGED <<n, joiner>>
RetQuery(a, v) ==
    /\ ps[a].s = "query" /\ ps[a].ph = "done" /\ v = ps[a].v
    /\ ps' = [ps EXCEPT ![a] = Idle]
    /\ UNCHANGED <<n, joiner>>
CallPoll(a, f) ==
    /\ ps[a] = Idle /\ f \in Futs /\ ps[f] # None
    /\ ps' = [ps EXCEPT ![a] = [s |-> "poll", ph |-> "called", f |-> f]]
    /\ UNCHANGED <<n, joiner>>
PollLin(a) ==
    /\ ps[a].s = "poll" /\ ps[a].ph = "called"
    /\ ps' = [ps EXCEPT ![a] = [s |-> "poll", ph |-> "done", v |-> IF ps[ps[a].f].s = "fdone" THEN "yes" ELSE "no"]]
    /\ UNCHANGED <<n, joiner>>
RetPoll(a, v) ==
    /\ ps[a].s = "poll" /\ ps[a].ph = "done" /\ v = ps[a].v
    /\ ps' = [ps EXCEPT ![a] = Idle]
    /\ UNCHANGED <<n, joiner>>

(* waits for the future; once per future *)
CallGet(a, f) ==
    /\ ps[a] = Idle /\ f \in Futs /\ ps[f] # None
    /\ ps' = [ps EXCEPT ![a] = [s |-> "get", f |-> f]]
    /\ UNCHANGED <<n, joiner>>
RetGet(a, v) ==
    /\ ps[a].s = "get" /\ ps[ps[a].f].s = "fdone" /\ v = ps[ps[a].f].v
    /\ ps' = [ps EXCEPT ![a] = Idle]
    /\ UNCHANGED <<n, joiner>>

Silent(a) == LaunchLin(a) \/ TaskFin(a) \/ JoinLin(a) \/ FutDone(a) \/ QueryLin(a) \/ PollLin(a)

(* Nothing moves any more: susp are the clients suspended in join, run the tasks that have not ended. *)
Quiescent(susp, run) ==
    /\ {a \in Clients : ps[a].s = "join"} = susp
    /\ {t \in Tasks : ps[t] = Idle} = run
    /\ \A a \in Actors : \/ ps[a].s \in {"none", "idle", "gone", "fdone"}
                         \/ ps[a].s = "join" /\ ps[a].ph = "susp"
    /\ UNCHANGED vars

(* ---------------------------------------------------------------- properties *)
InFlight == {t \in Tasks : ps[t].s \notin {"none", "called", "gone"}}
Counted == n = Cardinality(InFlight)
JoinWaits == joiner # 0 => /\ n > 0
                           /\ ps[joiner].s = "join" /\ ps[joiner].ph = "susp"
OneJoiner == Cardinality({a \in Actors : ps[a].s = "join" /\ ps[a].ph = "susp"}) <= 1
NobodyForgotten == \A a \in Actors : (ps[a].s = "join" /\ ps[a].ph = "susp") => joiner = a
Inv == Counted /\ JoinWaits /\ OneJoiner /\ NobodyForgotten
(* a join is released only by the end of the last task, or goes on because nothing was in flight *)
NotEarly == [][\A a \in Actors :
    (ps[a].s = "join" /\ ps'[a].s = "join" /\ ps'[a].ph \in {"ready", "rel"} /\ ps[a].ph # ps'[a].ph) => n' = 0]_vars
=============================================================================
