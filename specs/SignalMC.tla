------------------------------ MODULE SignalMC ------------------------------
(* Clients and slots that call operations: op number 10 * a + k for the k-th operation of client a, 100 + ... for       *)
(* operations called by the slot running in emission o.                                                                 *)
EXTENDS Signal
CONSTANTS Clients, Budget, Manager, Moves
VARIABLES left, stack    \* per client: operations it may still call, its operations under way (innermost last)
mcvars == <<vars, left, stack>>
MCInit == Init /\ left = [a \in Clients |-> Budget] /\ stack = [a \in Clients |-> <<>>]
Top(a) == stack[a][Len(stack[a])]
Free(a) == IF stack[a] = <<>> THEN TRUE ELSE op[Top(a)].s = "emit" /\ op[Top(a)].ph = "in"
NewOp(a) == 10 * a + left[a]
Push(a) == left[a] > 0 /\ Free(a) /\ left' = [left EXCEPT ![a] = @ - 1] /\ stack' = [stack EXCEPT ![a] = Append(@, NewOp(a))]
NextSlot == {x \in Slots \ begun : \A y \in Slots \ begun : x <= y}
MCCall(a) == LET o == NewOp(a) IN
    \/ \E s \in Sigs : \/ \E x \in NextSlot, f \in BOOLEAN : CallConnect(o, s, x, f)
                       \/ CallEmit(o, s)
                       \/ \E x \in begun, n \in {"remove", "disconnect"} : (\E t \in Sigs : In(x, lst[t])) /\ CallSlot(o, n, s, x)
    \/ Manager /\ CallShrink(o)
    \/ Moves /\ stack[a] = <<>> /\ \E s, t \in Sigs : CallMove(o, s, t)
MCRet(a) == /\ stack[a] # <<>> /\ \E r \in 0..3 \union {1000} : Ret(Top(a), op[Top(a)].s, r)
            /\ stack' = [stack EXCEPT ![a] = SubSeq(@, 1, Len(@) - 1)] /\ left' = left
Keep == UNCHANGED <<left, stack>>
MCNext == \/ \E a \in Clients : (Push(a) /\ MCCall(a)) \/ MCRet(a)
          \/ Keep /\ Silent
          \/ Keep /\ \E o \in DOMAIN op, x \in begun : Fire(o, x, o) \/ ((\E a \in Clients : stack[a] # <<>> /\ Top(a) = o) /\ \E t \in BOOLEAN : FireEnd(o, x, t))
          \/ Keep /\ \E x \in begun : Drop(x)
MCSpec == MCInit /\ [][MCNext]_mcvars
(* an emission that returned called everything connected throughout *)
CalledAll == [][\A o \in DOMAIN op : (o \notin DOMAIN op' /\ op[o].s = "emit" /\ op[o].ph = "done") =>
                   \A x \in op[o].must : x \in con => In(x, op[o].fired)]_mcvars
=============================================================================
