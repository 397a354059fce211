------------------------------- MODULE Signal -------------------------------
(* asyncpp::signal and signal_manager. A signal is a list of slots (a manager has one per event). Operations are       *)
(* identified by a number; an operation called by a slot is simply under way at the same time as the emission.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Sigs, Slots, OpIds
VARIABLES lst,     \* per signal: all slots connected so far, in list order (also those disconnected since)
          con,     \* connected slots
          begun,   \* slots whose connecting has begun
          gone,    \* slots whose function has been destroyed
          mapped,  \* events a manager knows about
          op       \* operations under way
vars == <<lst, con, begun, gone, mapped, op>>
Init == /\ lst = [s \in Sigs |-> <<>>] /\ con = {} /\ begun = {} /\ gone = {} /\ mapped = {} /\ op = <<>>
In(x, q) == \E i \in DOMAIN q : q[i] = x
Pos(x, q) == CHOOSE i \in DOMAIN q : q[i] = x
ConnectedIn(s) == {x \in con : In(x, lst[s])}
Active(o) == o \in DOMAIN op
Blank == [ph |-> "called", r |-> 0, g |-> 0, g2 |-> 0, slot |-> 0, front |-> FALSE, must |-> {}, elig |-> {}, fired |-> <<>>, cur |-> 0, seen |-> {}]
Begin(o, rec) == o \in OpIds /\ ~Active(o) /\ op' = (o :> (rec @@ Blank)) @@ op
CallConnect(o, s, slot, front) == /\ s \in Sigs /\ slot \in Slots /\ slot \notin begun /\ begun' = begun \union {slot}
                                  /\ Begin(o, [s |-> "connect", g |-> s, slot |-> slot, front |-> front])
                                  /\ UNCHANGED <<lst, con, gone, mapped>>
CallEmit(o, s) == s \in Sigs /\ Begin(o, [s |-> "emit", g |-> s]) /\ UNCHANGED <<lst, con, begun, gone, mapped>>
(* slot 0: a handle that belongs to nothing *)
CallSlot(o, name, s, slot) == /\ s \in Sigs /\ name \in {"remove", "owns", "disconnect", "valid"} /\ slot \in Slots \union {0}
                              /\ Begin(o, [s |-> name, g |-> s, slot |-> slot]) /\ UNCHANGED <<lst, con, begun, gone, mapped>>
CallSize(o, name, s) == s \in Sigs /\ name \in {"size", "empty"} /\ Begin(o, [s |-> name, g |-> s]) /\ UNCHANGED <<lst, con, begun, gone, mapped>>
CallShrink(o) == Begin(o, [s |-> "shrink"]) /\ UNCHANGED <<lst, con, begun, gone, mapped>>
(* s2 is moved into s (constructed or assigned), s keeps nothing of its own *)
CallMove(o, s, s2) == s \in Sigs /\ s2 \in Sigs /\ Begin(o, [s |-> "move", g |-> s, g2 |-> s2]) /\ UNCHANGED <<lst, con, begun, gone, mapped>>
CallDestroy(o, s) == s \in Sigs /\ Begin(o, [s |-> "destroy", g |-> s]) /\ UNCHANGED <<lst, con, begun, gone, mapped>>

Is(o, name) == op[o].s = name /\ op[o].ph = "called"
Done(o, r) == op' = [op EXCEPT ![o].ph = "done", ![o].r = r]
B(x) == IF x THEN 1 ELSE 0
ConnectLin(o) == /\ Is(o, "connect")
                 /\ LET s == op[o].g x == op[o].slot IN
                    /\ lst' = [lst EXCEPT ![s] = IF op[o].front THEN <<x>> \o @ ELSE Append(@, x)]
                    /\ con' = con \union {x} /\ mapped' = mapped \union {s}
                 /\ Done(o, 0) /\ UNCHANGED <<begun, gone>>
RemoveLin(o) == /\ Is(o, "remove") /\ LET x == op[o].slot IN
                    LET own == x \in con /\ In(x, lst[op[o].g]) IN Done(o, B(own)) /\ con' = IF own THEN con \ {x} ELSE con
                /\ UNCHANGED <<lst, begun, gone, mapped>>
DisconnectLin(o) == /\ Is(o, "disconnect") /\ con' = con \ {op[o].slot} /\ Done(o, 0) /\ UNCHANGED <<lst, begun, gone, mapped>>
LookLin(o) == /\ op[o].ph = "called"
              /\ \/ op[o].s = "owns" /\ Done(o, B(op[o].slot \in con /\ In(op[o].slot, lst[op[o].g])))
                 \/ op[o].s = "valid" /\ Done(o, B(op[o].slot \in con))
                 \/ op[o].s = "size" /\ Done(o, Cardinality(ConnectedIn(op[o].g)))
                 \/ op[o].s = "empty" /\ Done(o, B(ConnectedIn(op[o].g) = {}))
              /\ UNCHANGED <<lst, con, begun, gone, mapped>>
(* every event is looked at once *)
ShrinkOne(o, s) == /\ Is(o, "shrink") /\ s \in Sigs \ op[o].seen
                   /\ LET e == s \in mapped /\ ConnectedIn(s) = {} IN
                      /\ mapped' = IF e THEN mapped \ {s} ELSE mapped
                      /\ op' = [op EXCEPT ![o].seen = @ \union {s}, ![o].r = @ + B(e), ![o].ph = IF op[o].seen \union {s} = Sigs THEN "done" ELSE "called"]
                   /\ UNCHANGED <<lst, con, begun, gone>>
(* moving a signal to itself does not change it *)
MoveLin(o) == /\ Is(o, "move")
              /\ IF op[o].g = op[o].g2 THEN UNCHANGED <<con, lst>>
                 ELSE /\ con' = con \ ConnectedIn(op[o].g)
                      /\ lst' = [lst EXCEPT ![op[o].g] = lst[op[o].g2], ![op[o].g2] = <<>>]
              /\ Done(o, 0) /\ UNCHANGED <<begun, gone, mapped>>
DestroyLin(o) == /\ Is(o, "destroy") /\ con' = con \ ConnectedIn(op[o].g) /\ lst' = [lst EXCEPT ![op[o].g] = <<>>]
                 /\ Done(o, 0) /\ UNCHANGED <<begun, gone, mapped>>
(* An emission: it has to call what is connected when it starts and still connected when its turn comes. *)
Start(o) == /\ Is(o, "emit") /\ op' = [op EXCEPT ![o].ph = "on", ![o].must = ConnectedIn(op[o].g)]
            /\ UNCHANGED <<lst, con, begun, gone, mapped>>
Due(o) == {x \in op[o].must \intersect con : ~In(x, op[o].fired)}
(* what began to be connected before the first slot is called may be included; others may not *)
Eligible(o, x) == x \in (IF op[o].fired = <<>> THEN begun ELSE op[o].elig)
Pick(o, x) ==
    /\ op[o].s = "emit" /\ op[o].ph = "on" /\ op[o].cur = 0
    /\ x \in con \ gone /\ In(x, lst[op[o].g]) /\ Eligible(o, x) /\ ~In(x, op[o].fired)
    /\ LET q == lst[op[o].g] IN
       /\ \A y \in Due(o) : In(y, q) => Pos(y, q) >= Pos(x, q)
       /\ \A i \in DOMAIN op[o].fired : In(op[o].fired[i], q) => Pos(op[o].fired[i], q) < Pos(x, q)
    /\ op' = [op EXCEPT ![o].cur = x, ![o].ph = "picked", ![o].elig = IF op[o].fired = <<>> THEN begun ELSE @]
    /\ UNCHANGED <<lst, con, begun, gone, mapped>>
EmitEnd(o) == /\ op[o].s = "emit" /\ op[o].ph = "on" /\ op[o].cur = 0 /\ Due(o) = {}
              /\ Done(o, Len(op[o].fired)) /\ UNCHANGED <<lst, con, begun, gone, mapped>>
Silent1(o) == ConnectLin(o) \/ RemoveLin(o) \/ DisconnectLin(o) \/ LookLin(o) \/ MoveLin(o) \/ DestroyLin(o)
              \/ Start(o) \/ EmitEnd(o) \/ (IF op[o].s = "emit" THEN \E x \in con : Pick(o, x) ELSE \E s \in Sigs : ShrinkOne(o, s))
Silent == \E o \in DOMAIN op : op[o].ph # "done" /\ Silent1(o)

Fire(o, x, arg) == /\ Active(o) /\ op[o].s = "emit" /\ op[o].ph = "picked" /\ op[o].cur = x /\ x \notin gone /\ arg = o
                   /\ op' = [op EXCEPT ![o].ph = "in", ![o].fired = Append(@, x)]
                   /\ UNCHANGED <<lst, con, begun, gone, mapped>>
FireEnd(o, x, thrown) ==
    /\ Active(o) /\ op[o].s = "emit" /\ op[o].ph = "in" /\ op[o].cur = x
    /\ op' = [op EXCEPT ![o].ph = IF thrown THEN "thrown" ELSE "on", ![o].cur = 0]
    /\ UNCHANGED <<lst, con, begun, gone, mapped>>
Running == {op[o].cur : o \in {p \in DOMAIN op : op[p].s = "emit" /\ op[p].ph = "in"}}
(* the function of a slot is destroyed: not while it is connected or running *)
Connecting == {op[o].slot : o \in {p \in DOMAIN op : op[p].s = "connect" /\ op[p].ph = "called"}}
Drop(x) == /\ x \in begun \ (gone \union con) /\ x \notin Running /\ x \notin Connecting
           /\ gone' = gone \union {x} /\ UNCHANGED <<lst, con, begun, mapped, op>>
Ret(o, name, r) ==
    /\ Active(o) /\ op[o].s = name
    /\ IF name = "emit" /\ op[o].ph = "thrown" THEN r = 1000
       ELSE op[o].ph = "done" /\ (r = op[o].r \/ r = 2000)   \* 2000: not observed
    /\ op' = [p \in DOMAIN op \ {o} |-> op[p]]
    /\ UNCHANGED <<lst, con, begun, gone, mapped>>
(* at the end: everything has been destroyed *)
Quiescent == op = <<>> /\ con = {} /\ gone = begun /\ UNCHANGED vars

(* ---------------------------------------------------------------- properties *)
OnceInOneList == \A x \in begun : Cardinality({<<s, i>> \in Sigs \X (1..Cardinality(begun)) : i <= Len(lst[s]) /\ lst[s][i] = x}) <= 1
ConListed == \A x \in con : \E s \in Sigs : In(x, lst[s])
NeverTwice == \A o \in DOMAIN op : op[o].s = "emit" => \A i, j \in DOMAIN op[o].fired : op[o].fired[i] = op[o].fired[j] => i = j
GoneUnused == \A x \in gone : x \notin con
Inv == OnceInOneList /\ ConListed /\ NeverTwice /\ GoneUnused
=============================================================================
