------------------------------- MODULE PtrTagMC ------------------------------
(* The encoding: bits of an address below its alignment are zero and carry the tag. *)
EXTENDS PtrTag, FiniteSets
CONSTANTS Limit
VARIABLES mem     \* word i as it is stored
Addr(al) == {a \in 0..Limit : a % al = 0}
Encode(a, t) == a + t
Decode(x, al) == <<x - (x % al), x % al>>
MInit == Init0 /\ mem = [i \in Words |-> 0]
MNext ==
    \E i \in Words, al \in Aligns : \E a \in Addr(al) : \E t \in 0..(al - 1) :
        /\ Pack(i, al, a, t, {j \in Words : Held(j) /\ mem[j] = Encode(a, t)})
        /\ mem' = [mem EXCEPT ![i] = Encode(a, t)]
MSpec == MInit /\ [][MNext]_<<vars, mem>>
RoundTrip == \A i \in Words : Held(i) => Decode(mem[i], w[i].al) = <<w[i].p, w[i].t>>
Tags == \A i \in Words : Held(i) => \A m \in Aligns : m <= w[i].al /\ w[i].t < m => mem[i] % m = w[i].t
(* every pair of pointer and tag can be stored next to what is there: the encoding is injective *)
Always == \A i \in Words, al \in Aligns : ~Held(i) => \A a \in Addr(al), t \in 0..(al - 1) :
             \A j \in Words : Held(j) /\ w[j].al = al => (mem[j] = Encode(a, t)) = (w[j].p = a /\ w[j].t = t)
=============================================================================
