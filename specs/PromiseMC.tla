----------------------------- MODULE PromiseMC -----------------------------
EXTENDS Promise
CONSTANTS Budget, MaxTime
VARIABLES left, nextid
mcvars == <<vars, left, nextid>>
MCInit == InitWith(Pending) /\ left = [a \in Actors |-> Budget] /\ nextid = 101
Use(a) == left[a] > 0 /\ left' = [left EXCEPT ![a] = @ - 1]
Keep == UNCHANGED <<left, nextid>>
AllIds == 101..(nextid - 1)
Prog(a) == Keep /\
    \/ \E r \in 0..2 : RetSettle(a, r)
    \/ RetReg(a)
    \/ \E k \in {"p", "f", "r"}, v \in {0} \union Actors : RetLook(a, k, v) \/ \E th \in Actors : Resume(a, k, v, th)
    \/ \E r \in BOOLEAN : RetQuery(a, r)
RunAny == Keep /\ \E id \in AllIds, th \in Actors : RunCb(id, "s", 0, th) \/ RunCb(id, val.k, val.v, th)
DropAny == Keep /\ \E id \in AllIds : Drop(id)
MCNext ==
    \/ \E a \in Actors :
        \/ Use(a) /\ UNCHANGED nextid /\ ((\E k \in {"f", "r", "x"} : CallSettle(a, k, a, a)) \/ CallAwait(a, a) \/ CallGet(a) \/ CallTGet(a, now + 1) \/ CallTryGet(a))
        \/ Use(a) /\ nextid' = nextid + 1 /\ \E kind \in {"s", "tf", "tb"} : CallReg(a, nextid, kind, a)
        \/ Keep /\ Silent(a)
        \/ Prog(a)
    \/ RunAny
    \/ DropAny
    \/ Keep /\ now < MaxTime /\ Tick(now + 1)
MCSpec == MCInit /\ [][MCNext]_mcvars /\ WF_mcvars(RunAny) /\ WF_mcvars(DropAny) /\ \A a \in Actors : WF_mcvars(Keep /\ Silent(a)) /\ WF_mcvars(Prog(a))
Served == \A a \in Actors : (val.k # "p" /\ ps[a].s \in {"await", "get"}) ~> ps[a] = Idle
(* nothing registered is kept for ever once the promise has settled *)
Released == (val.k # "p" /\ held # {}) ~> (held = {} \/ \E a \in Actors : ps[a].s = "reg")
=============================================================================
