-------------------------------- MODULE PtrTag --------------------------------
(* Words that hold a pointer and a tag. A word keeps both, whatever other words are made and read in between; two words  *)
(* made for the same alignment are equal exactly if pointer and tag are. How they are encoded is not prescribed here;     *)
(* PtrTagMC shows that the usual encoding (tag in the alignment bits) is one that does it.                                *)
EXTENDS Integers
CONSTANTS Words, Aligns
VARIABLES w
vars == <<w>>
None == [al |-> 0, p |-> "", t |-> 0]
Init0 == w = [i \in Words |-> None]
Held(i) == w[i].al # 0
(* a tag is accepted exactly if it fits into the alignment *)
Accepts(al, t, v) == v = (t < al) /\ UNCHANGED vars
Pack(i, al, p, t, same) ==
    /\ ~Held(i) /\ al \in Aligns /\ t >= 0 /\ t < al
    /\ \A j \in Words : Held(j) /\ w[j].al = al => (j \in same) = (w[j].p = p /\ w[j].t = t)
    /\ w' = [w EXCEPT ![i] = [al |-> al, p |-> p, t |-> t]]
Unpack(i, p, t) == Held(i) /\ w[i].p = p /\ w[i].t = t /\ UNCHANGED vars
(* reading the tag without knowing the type, where the least alignment of the possible types is mal *)
GetTag(i, mal, t) == Held(i) /\ w[i].t < mal /\ mal <= w[i].al /\ t = w[i].t /\ UNCHANGED vars
Least(als, m) == m \in als /\ (\A a \in als : m <= a) /\ UNCHANGED vars
Inv == \A i \in Words : Held(i) => w[i].t < w[i].al
Kept == [][\A i \in Words : Held(i) => w'[i] = w[i]]_vars
=============================================================================
