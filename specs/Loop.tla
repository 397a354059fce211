-------------------------------- MODULE Loop --------------------------------
(* asyncpp::simple_dispatcher and defer: dispatchers whose loop is run by some thread (also from within a task of      *)
(* another dispatcher) until it is stopped. A task is a pushed function or a coroutine that deferred itself.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Disps, Actors, Ids, Threads    \* Ids: tasks; they are actors as well while they run
VARIABLES q,      \* per dispatcher: pushed tasks that did not start
          done,   \* stopped dispatchers
          lp,     \* per dispatcher: its loop, [st, th, cur], st: "off" "check" "armed" "run" "leave" "thrown"
          stk,    \* per thread: dispatchers whose loops run there, innermost last
          task,   \* per task: "none" "queued" "run" "done"
          ps
vars == <<q, done, lp, stk, task, ps>>
Idle == [s |-> "idle"]
Off == [st |-> "off", th |-> 0, cur |-> 0]
Init == /\ q = [d \in Disps |-> <<>>] /\ done = {} /\ lp = [d \in Disps |-> Off] /\ stk = [t \in Threads |-> <<>>]
        /\ task = [i \in Ids |-> "none"] /\ ps = [a \in Actors |-> Idle]
CurOf(th) == IF stk[th] = <<>> THEN 0 ELSE stk[th][Len(stk[th])]
Begin(a, rec) == ps[a] = Idle /\ ps' = [ps EXCEPT ![a] = [ph |-> "called"] @@ rec]
Fresh(id) == id \in Ids /\ task[id] = "none" /\ \A b \in Actors : ps[b].s \in {"push", "defer"} => ps[b].id # id
CallPush(a, d, id) == d \in Disps /\ Fresh(id) /\ Begin(a, [s |-> "push", d |-> d, id |-> id]) /\ UNCHANGED <<q, done, lp, stk, task>>
CallEmpty(a, d) == d \in Disps /\ Begin(a, [s |-> "empty", d |-> d]) /\ UNCHANGED <<q, done, lp, stk, task>>
(* a coroutine defers: from then on it acts as task id; if it was resumed as a task that one ends (last) *)
CallDefer(a, d, id, last) ==
    /\ Fresh(id) /\ Begin(a, [s |-> "defer", d |-> d, id |-> id, last |-> last])
    /\ IF last THEN /\ d # 0 /\ a \in Ids /\ task[a] = "run" /\ task' = [task EXCEPT ![a] = "done"]
                    /\ \E e \in Disps : lp[e].st = "run" /\ CurOf(lp[e].th) = e /\ lp' = [lp EXCEPT ![e].st = "check"]
       ELSE UNCHANGED <<task, lp>>
    /\ UNCHANGED <<q, done, stk>>
CallStop(a, d) == d \in Disps /\ Begin(a, [s |-> "stop", d |-> d]) /\ UNCHANGED <<q, done, lp, stk, task>>
CallRun(a, d, th, cur) ==
    /\ d \in Disps /\ lp[d].st = "off" /\ cur = CurOf(th)
    /\ Begin(a, [s |-> "run", d |-> d])
    /\ lp' = [lp EXCEPT ![d] = [st |-> "check", th |-> th, cur |-> cur]]
    /\ stk' = [stk EXCEPT ![th] = Append(@, d)]
    /\ UNCHANGED <<q, done, task>>
PushLin(a) ==
    /\ ps[a].s \in {"push", "defer"} /\ ps[a].ph = "called" /\ ps[a].d # 0
    /\ q' = [q EXCEPT ![ps[a].d] = Append(@, ps[a].id)]
    /\ task' = [task EXCEPT ![ps[a].id] = "queued"]
    /\ IF ps[a].s = "defer" /\ ps[a].last THEN ps' = [ps EXCEPT ![a] = Idle] ELSE ps' = [ps EXCEPT ![a].ph = "done"]
    /\ UNCHANGED <<done, lp, stk>>
StopLin(a) ==
    /\ ps[a].s = "stop" /\ ps[a].ph = "called"
    /\ done' = done \union {ps[a].d} /\ ps' = [ps EXCEPT ![a].ph = "done"]
    /\ UNCHANGED <<q, lp, stk, task>>
(* an iteration of the loop begins; one that has begun may still start a task after a stop *)
Check(d) == /\ lp[d].st = "check" /\ lp' = [lp EXCEPT ![d].st = IF d \in done THEN "leave" ELSE "armed"]
            /\ UNCHANGED <<q, done, stk, task, ps>>
Wake(d) == /\ lp[d].st = "armed" /\ d \in done /\ lp' = [lp EXCEPT ![d].st = "leave"]
           /\ UNCHANGED <<q, done, stk, task, ps>>
Silent == (\E a \in Actors : PushLin(a) \/ StopLin(a)) \/ (\E d \in Disps : Check(d) \/ Wake(d))
Run(id, th, cur) ==
    /\ id \in Ids /\ \E d \in Disps :
        /\ lp[d].st = "armed" /\ q[d] # <<>> /\ Head(q[d]) = id
        /\ th = lp[d].th /\ cur = d /\ CurOf(th) = d
        /\ q' = [q EXCEPT ![d] = Tail(@)] /\ lp' = [lp EXCEPT ![d].st = "run"]
    /\ task' = [task EXCEPT ![id] = "run"]
    /\ UNCHANGED <<done, stk, ps>>
(* the task ends, normally or with an exception *)
End(id, thrown, cur) ==
    /\ id \in Ids /\ task[id] = "run" /\ ps[id] = Idle
    /\ task' = [task EXCEPT ![id] = "done"]
    /\ \E d \in Disps : /\ lp[d].st = "run" /\ CurOf(lp[d].th) = d /\ cur = d
                        /\ lp' = [lp EXCEPT ![d].st = IF thrown THEN "thrown" ELSE "check"]
    /\ UNCHANGED <<q, done, stk, ps>>
Ret(a) == ps' = [ps EXCEPT ![a] = Idle] /\ UNCHANGED <<q, done, task>>
RetOp(a, s) == ps[a].s = s /\ ps[a].ph = "done" /\ s \in {"push", "stop"} /\ Ret(a) /\ UNCHANGED <<lp, stk>>
RetEmpty(a) == ps[a].s = "empty" /\ Ret(a) /\ UNCHANGED <<lp, stk>>
(* back from the co_await without suspending: only without a target *)
RetDefer(a) == /\ ps[a].s = "defer" /\ ps[a].ph = "called" /\ ps[a].d = 0
               /\ ps' = [ps EXCEPT ![a] = Idle] /\ task' = [task EXCEPT ![ps[a].id] = "done"]
               /\ UNCHANGED <<q, done, lp, stk>>
(* the resumer gets control back *)
RetHandoff(a) == ps[a].s = "defer" /\ ps[a].ph = "done" /\ Ret(a) /\ UNCHANGED <<lp, stk>>
RetRun(a, thrown, cur) ==
    /\ ps[a].s = "run" /\ LET d == ps[a].d  th == lp[d].th IN
        /\ lp[d].st = IF thrown THEN "thrown" ELSE "leave"
        /\ CurOf(th) = d /\ cur = lp[d].cur
        /\ lp' = [lp EXCEPT ![d] = Off] /\ stk' = [stk EXCEPT ![th] = SubSeq(@, 1, Len(@) - 1)]
    /\ Ret(a)
Quiescent == (\A a \in Actors : ps[a] = Idle) /\ (\A d \in Disps : lp[d] = Off) /\ UNCHANGED vars

(* ---------------------------------------------------------------- properties *)
InOne(id) == Cardinality({<<d, i>> \in Disps \X (1..Cardinality(Ids)) : i <= Len(q[d]) /\ q[d][i] = id})
Queued == \A i \in Ids : InOne(i) = IF task[i] = "queued" THEN 1 ELSE 0
Stacked == \A t \in Threads : \A i \in DOMAIN stk[t] : lp[stk[t][i]].th = t /\ lp[stk[t][i]].cur = (IF i = 1 THEN 0 ELSE stk[t][i-1])
OnlyInnermost == \A t \in Threads : \A i \in DOMAIN stk[t] : i < Len(stk[t]) => lp[stk[t][i]].st = "run"
Inv == Queued /\ Stacked /\ OnlyInnermost
Once == [][\A i \in Ids : task[i] = "done" => task'[i] = "done"]_vars
=============================================================================
