----------------------------- MODULE CombineMC -----------------------------
EXTENDS Combine
CONSTANTS NIn, MaxArgs, Waiters
VARIABLES used
mcvars == <<vars, used>>
Ins == 1..NIn
(* actor i settles input i, actor 0 combines, waiters await the result *)
Outcomes == {Pending, [k |-> "f", v |-> 100], [k |-> "r", v |-> 101]}
MCInit == /\ \E kd \in {"first", "succ", "all"}, as \in UNION {[1..n -> Ins] : n \in 0..MaxArgs}, ins \in [Ins -> Outcomes] :
               /\ (Len(as) = 0 => kd = "all")
               /\ InitWith(kd, as, ins)
          /\ used = {}
Use(a) == a \notin used /\ used' = used \union {a}
Keep == UNCHANGED used
Prog(a) == Keep /\
    \/ \E r \in {0, 1} : RetSettle(a, r)
    \/ RetCombine(a)
    \/ RetLook(a, res.k, res.v) \/ RetLook(a, "p", 0)
    \/ \E th \in Actors : Resume(a, res.k, res.v, th)
Combined == 0 \in used /\ ps[0] = Idle
MCNext == \E a \in Actors :
    \/ Use(a) /\ ((a \in Ins /\ \E k \in {"f", "r"} : CallSettle(a, a, k, a, a))
                  \/ (a = 0 /\ CallCombine(0, 0))
                  \/ (a \in Waiters /\ Combined /\ (CallAwait(a, a) \/ CallGet(a) \/ CallTryGet(a))))
    \/ Keep /\ Silent(a)
    \/ Prog(a)
MCSpec == MCInit /\ [][MCNext]_mcvars /\ \A a \in Actors : WF_mcvars(Keep /\ Silent(a)) /\ WF_mcvars(Prog(a))
AllIn == Ins \subseteq used /\ \A i \in Ins : in[i].k # "p"
Served == \A a \in Waiters : (ps[a].s \in {"await", "get"} /\ AllIn) ~> ps[a] = Idle
=============================================================================
