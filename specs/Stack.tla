------------------------------- MODULE Stack -------------------------------
(* The stack of one thread that runs coroutines (and fibers). A coroutine that waits does not occupy any of it: who       *)
(* awaits something that runs right away is replaced by it on the stack and takes its place again when it is done. So the *)
(* depth is bounded by the number of coroutines that are in the middle of something, however often they have awaited.     *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Co               \* coroutines
VARIABLES st,              \* "new", "susp" (waits for somebody else), "wait" (for the coroutine it has started), "run", "done"
          cont,            \* who goes on when it ends (0: nobody)
          stack,           \* those that are being executed, the innermost last
          n                \* number of awaits so far, per coroutine
vars == <<st, cont, stack, n>>
Init == st = [c \in Co |-> "new"] /\ cont = [c \in Co |-> 0] /\ stack = <<>> /\ n = [c \in Co |-> 0]
Top == IF stack = <<>> THEN 0 ELSE stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
InSeq(s) == {s[i] : i \in 1..Len(s)}
(* a coroutine nobody waits for is started by whoever is running, or from outside *)
Start(c) ==
    /\ st[c] = "new"
    /\ st' = [st EXCEPT ![c] = "run"] /\ stack' = Append(stack, c) /\ UNCHANGED <<cont, n>>
(* c awaits d, which starts *)
Await(c, d) ==
    /\ Top = c /\ c # 0 /\ st[d] = "new"
    /\ st' = [st EXCEPT ![c] = "wait", ![d] = "run"] /\ cont' = [cont EXCEPT ![d] = c]
    /\ stack' = Append(Pop, d) /\ n' = [n EXCEPT ![c] = @ + 1]
(* c awaits something that is not there yet *)
Suspend(c) ==
    /\ Top = c /\ c # 0
    /\ st' = [st EXCEPT ![c] = "susp"] /\ stack' = Pop /\ n' = [n EXCEPT ![c] = @ + 1] /\ UNCHANGED cont
(* and gets it from whoever is running, or from outside: it goes on inside of that *)
Resume(c) ==
    /\ st[c] = "susp"
    /\ st' = [st EXCEPT ![c] = "run"] /\ stack' = Append(stack, c) /\ UNCHANGED <<cont, n>>
Finish(c) ==
    /\ Top = c /\ c # 0
    /\ IF cont[c] = 0
       THEN st' = [st EXCEPT ![c] = "done"] /\ stack' = Pop
       ELSE st' = [st EXCEPT ![c] = "done", ![cont[c]] = "run"] /\ stack' = Append(Pop, cont[c])
    /\ UNCHANGED <<cont, n>>
(* somebody awaits a fresh coroutine of the same kind *)
Again(c) ==
    /\ st[c] = "done"
    /\ st' = [st EXCEPT ![c] = "new"] /\ cont' = [cont EXCEPT ![c] = 0] /\ UNCHANGED <<stack, n>>

(* ---------------------------------------------------------------- properties *)
(* whoever is on the stack is running, once *)
OnlyRunning == \A i \in 1..Len(stack) : st[stack[i]] = "run"
NotTwice == Cardinality(InSeq(stack)) = Len(stack)
Depth == Len(stack) <= Cardinality({c \in Co : st[c] = "run"})
Conts == \A c \in Co : st[c] = "wait" => Cardinality({d \in Co : cont[d] = c /\ st[d] \in {"run", "susp", "wait"}}) = 1
Inv == OnlyRunning /\ NotTwice /\ Depth /\ Conts
=============================================================================
