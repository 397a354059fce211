------------------------------ MODULE Combine ------------------------------
(* asyncpp::promise_first / promise_first_successful / promise_all over a list of input promises.                      *)
(* Outcomes are records [k, v]: "p" pending, "f" fulfilled with v, "r" rejected with v.                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Actors
VARIABLES kind,   \* "first" | "succ" | "all"
          args,   \* the inputs in argument order (an input may be given twice)
          in,     \* outcome of every input
          pos,    \* per argument position: "no" not registered yet, "reg" registered, "done" has contributed
          todo,   \* per actor: positions its settle operation still has to contribute, in order
          nrej,   \* number of rejected positions that contributed
          res,    \* outcome of the combination
          W,      \* coroutines waiting for the combination
          runq,   \* per actor: coroutines its operation still has to continue
          ps
vars == <<kind, args, in, pos, todo, nrej, res, W, runq, ps>>
Idle == [s |-> "idle"]
Pending == [k |-> "p", v |-> 0]
Positions == 1..Len(args)
InitWith(kd, as, ins) ==
    /\ kind = kd /\ args = as /\ in = ins
    /\ pos = [p \in 1..Len(as) |-> "no"]
    /\ todo = [a \in Actors |-> <<>>] /\ runq = [a \in Actors |-> <<>>]
    /\ nrej = 0 /\ res = Pending /\ W = <<>>
    /\ ps = [a \in Actors |-> Idle]
Begin(a, rec) == ps[a] = Idle /\ ps' = [ps EXCEPT ![a] = [ph |-> "called"] @@ rec] /\ UNCHANGED <<kind, args, in, pos, todo, nrej, res, W, runq>>
CallSettle(a, i, k, v, th) == i \in DOMAIN in /\ k \in {"f", "r"} /\ Begin(a, [s |-> "settle", i |-> i, k |-> k, v |-> v, th |-> th])
CallCombine(a, th) == (\A b \in Actors : ps[b].s # "combine") /\ (\A p \in Positions : pos[p] = "no") /\ Begin(a, [s |-> "combine", at |-> 1, th |-> th])
CallAwait(a, th) == Begin(a, [s |-> "await", th |-> th])
CallGet(a)       == Begin(a, [s |-> "get"])
CallTryGet(a)    == Begin(a, [s |-> "tryget"])

(* What the combination does with the outcome o of one more argument, given that `others` have contributed before.    *)
Last(p) == \A q \in Positions : q # p => pos[q] = "done"
Outcome(p, o) ==
    CASE kind = "first" -> o
      [] kind = "succ"  -> IF o.k = "f" THEN o ELSE IF nrej + 1 = Len(args) THEN o ELSE Pending
      [] kind = "all"   -> IF Last(p) THEN [k |-> "f", v |-> 0] ELSE Pending
Contribute(a, p, o) ==
    /\ pos' = [pos EXCEPT ![p] = "done"]
    /\ nrej' = nrej + (IF o.k = "r" THEN 1 ELSE 0)
    /\ LET n == Outcome(p, o) IN
       IF res.k = "p" /\ n.k # "p"
       THEN res' = n /\ W' = <<>> /\ runq' = [runq EXCEPT ![a] = @ \o W]
       ELSE UNCHANGED <<res, W, runq>>

SettleLin(a) ==
    /\ ps[a].s = "settle" /\ ps[a].ph = "called"
    /\ IF in[ps[a].i].k # "p" THEN ps' = [ps EXCEPT ![a] = [ph |-> "done", r |-> 0] @@ @] /\ UNCHANGED <<in, todo>>
       ELSE /\ in' = [in EXCEPT ![ps[a].i] = [k |-> ps[a].k, v |-> ps[a].v]]
            /\ todo' = [todo EXCEPT ![a] = SelectSeq([p \in Positions |-> p], LAMBDA p : args[p] = ps[a].i /\ pos[p] = "reg")]
            /\ ps' = [ps EXCEPT ![a] = [ph |-> "done", r |-> 1] @@ @]
    /\ UNCHANGED <<kind, args, pos, nrej, res, W, runq>>
(* the operation that settled an input passes the outcome on *)
Pass(a) ==
    /\ ps[a].s = "settle" /\ ps[a].ph = "done" /\ todo[a] # <<>>
    /\ todo' = [todo EXCEPT ![a] = Tail(@)]
    /\ Contribute(a, Head(todo[a]), in[ps[a].i])
    /\ UNCHANGED <<kind, args, in, ps>>
(* combining looks at its arguments one after the other *)
CombineStep(a) ==
    /\ ps[a].s = "combine" /\ ps[a].ph = "called" /\ ps[a].at <= Len(args)
    /\ LET p == ps[a].at  o == in[args[p]] IN
       IF o.k = "p" THEN pos' = [pos EXCEPT ![p] = "reg"] /\ UNCHANGED <<nrej, res, W, runq>>
       ELSE Contribute(a, p, o)
    /\ ps' = [ps EXCEPT ![a].at = @ + 1]
    /\ UNCHANGED <<kind, args, in, todo>>
CombineNothing(a) == \* promise_all() of nothing
    /\ ps[a].s = "combine" /\ ps[a].ph = "called" /\ Len(args) = 0 /\ kind = "all" /\ res.k = "p"
    /\ res' = [k |-> "f", v |-> 0]
    /\ UNCHANGED <<kind, args, in, pos, todo, nrej, W, runq, ps>>
AwaitLin(a) ==
    /\ ps[a].s = "await" /\ ps[a].ph = "called"
    /\ IF res.k = "p" THEN W' = Append(W, a) /\ ps' = [ps EXCEPT ![a].ph = "susp"]
       ELSE UNCHANGED W /\ ps' = [ps EXCEPT ![a].ph = "done"]
    /\ UNCHANGED <<kind, args, in, pos, todo, nrej, res, runq>>
LookLin(a) ==
    /\ ps[a].s \in {"get", "tryget"} /\ ps[a].ph = "called"
    /\ ps[a].s = "get" => res.k # "p"
    /\ ps' = [ps EXCEPT ![a] = [ph |-> "done", o |-> res] @@ @]
    /\ UNCHANGED <<kind, args, in, pos, todo, nrej, res, W, runq>>
Silent(a) == SettleLin(a) \/ Pass(a) \/ CombineStep(a) \/ CombineNothing(a) \/ AwaitLin(a) \/ LookLin(a)

Resume(a, k, v, th) ==
    /\ ps[a].s = "await" /\ res = [k |-> k, v |-> v] /\ k # "p"
    /\ \/ ps[a].ph = "done" /\ th = ps[a].th /\ UNCHANGED runq
       \/ /\ ps[a].ph = "susp"
          /\ \E b \in Actors : /\ runq[b] # <<>> /\ Head(runq[b]) = a /\ ps[b].th = th
                               /\ runq' = [runq EXCEPT ![b] = Tail(@)]
    /\ ps' = [ps EXCEPT ![a] = Idle]
    /\ UNCHANGED <<kind, args, in, pos, todo, nrej, res, W>>
Ret(a) == ps' = [ps EXCEPT ![a] = Idle] /\ UNCHANGED <<kind, args, in, pos, todo, nrej, res, W, runq>>
RetSettle(a, r) == ps[a].s = "settle" /\ ps[a].ph = "done" /\ r = ps[a].r /\ todo[a] = <<>> /\ runq[a] = <<>> /\ Ret(a)
RetCombine(a) == /\ ps[a].s = "combine" /\ ps[a].at > Len(args) /\ runq[a] = <<>>
                 /\ (kind = "all" /\ Len(args) = 0 => res.k = "f") /\ Ret(a)
RetLook(a, k, v) == ps[a].s \in {"get", "tryget"} /\ ps[a].ph = "done" /\ ps[a].o = [k |-> k, v |-> v] /\ Ret(a)
Quiescent(susp) ==
    /\ {W[i] : i \in DOMAIN W} = susp
    /\ \A a \in Actors : (ps[a] = Idle \/ a \in susp) /\ runq[a] = <<>> /\ todo[a] = <<>>
    /\ UNCHANGED vars

(* ---------------------------------------------------------------- properties *)
Outs == {in[args[p]] : p \in Positions}
AllDone == \A p \in Positions : pos[p] = "done"
Busy == \E a \in Actors : ps[a].s \in {"combine"} \/ todo[a] # <<>>
ByRule ==
    CASE kind = "first" -> (res.k # "p" => res \in Outs) /\ (~Busy /\ AllDone => res.k # "p")
      [] kind = "succ"  -> /\ res.k = "f" => res \in Outs
                           /\ res.k = "r" => res \in Outs /\ \A o \in Outs : o.k = "r"
                           /\ (~Busy /\ AllDone => res.k # "p")
      [] kind = "all"   -> /\ res.k # "p" => res.k = "f" /\ \A o \in Outs : o.k # "p"
                           /\ (~Busy /\ AllDone /\ Positions # {} => res.k = "f")
NobodyLeft == res.k # "p" => W = <<>>
Inv == ByRule /\ NobodyLeft
SettlesOnce == [][res.k # "p" => res' = res]_vars
(* once one input settled first (before any other started) nothing else can win *)
=============================================================================
