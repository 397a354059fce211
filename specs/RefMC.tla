------------------------------- MODULE RefMC -------------------------------
EXTENDS Ref
CONSTANTS Clients, Budget, WithFields
VARIABLES left
mcvars == <<vars, left>>
MCInit == Init /\ left = [a \in Clients |-> Budget]
Use(a) == left[a] > 0 /\ left' = [left EXCEPT ![a] = @ - 1]
Keep == UNCHANGED left
Mine(a) == {s \in Locals : s \div 10 = a}
(* fields of objects the actor holds *)
Reach(a) == IF WithFields THEN UNION {Fields(hold[s]) : s \in {x \in Mine(a) : hold[x] # 0}} ELSE {}
NextObj == {o \in Objs : st[o] = "none" /\ (\A b \in Actors : ps[b].s = "new" => ps[b].o # o) /\ \A p \in Objs : p < o => st[p] # "none"}
Calls(a) ==
    \/ \E d \in Mine(a), o \in NextObj : Call(a, "new", d, 0, o)
    \/ \E d \in Mine(a) \union Reach(a) \union Cells, s \in Mine(a) \union Reach(a) : Call(a, "set", d, s, 0) \/ Call(a, "move", d, s, 0)
    \/ \E d \in Mine(a), s \in Cells : Call(a, "set", d, s, 0)
    \/ \E d \in Mine(a) \union Reach(a) \union Cells : Call(a, "clear", d, 0, 0) \/ Call(a, "get", d, 0, 0)
    \/ \E d \in Cells, s \in Mine(a) : Call(a, "xchg", d, s, 0)
    \/ \E d, s \in Cells : d # s /\ (Call(a, "copyc", d, s, 0) \/ Call(a, "movec", d, s, 0))
    \/ \E d \in Mine(a), s \in Mine(a) : d # s /\ Call(a, "swap", d, s, 0)
MCNext == \/ \E a \in Clients : (Use(a) /\ Calls(a)) \/ (Keep /\ \E r \in Objs \union {0} : Ret(a, r))
          \/ Keep /\ (Silent \/ \E o \in Objs : (\E a \in Actors : Drop(o, a)) \/ DropEnd(o))
MCSpec == MCInit /\ [][MCNext]_mcvars
Step == Keep /\ (Silent \/ (\E o \in Objs : (\E a \in Actors : Drop(o, a)) \/ DropEnd(o)) \/ \E a \in Clients, r \in Objs \union {0} : Ret(a, r))
MCLive == MCSpec /\ WF_mcvars(Step)
(* whoever loses its last holder is destroyed, and every operation ends *)
Dies == \A o \in Objs : st[o] = "doomed" ~> st[o] = "dead"
Ends == \A a \in Clients : ps[a] # Idle ~> ps[a] = Idle
=============================================================================
