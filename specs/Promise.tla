------------------------------ MODULE Promise ------------------------------
(* asyncpp::promise as seen by its users: settles once; callbacks, awaiting coroutines and blocking getters.           *)
(* Outcomes are records [k, v]: k = "p" pending, "f" fulfilled with v, "r" rejected with v.                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Actors        \* whoever runs operations: threads, coroutines, callbacks while they run
VARIABLES val,          \* outcome
          L,            \* registered and not yet run: sequence of [id, kind], kind: "s" settle, "a" await, "tf"/"tr"/"tb" then
          ps,           \* operation under way per actor
          run,          \* callbacks an operation still has to run, per actor: [S, T] (two sequences, each in order)
          now,          \* time, in ms
          ran,          \* callbacks that have run (history)
          held          \* callbacks (with what they captured) that still exist
vars == <<val, L, ps, run, now, ran, held>>
Idle == [s |-> "idle"]
Pending == [k |-> "p", v |-> 0]
NoRun == [S |-> <<>>, T |-> <<>>]
InitWith(o) == /\ val = o /\ L = <<>> /\ ps = [a \in Actors |-> Idle] /\ run = [a \in Actors |-> NoRun]
               /\ now = 0 /\ ran = {} /\ held = {}
Begin0(a, rec) == ps[a] = Idle /\ ps' = [ps EXCEPT ![a] = [ph |-> "called"] @@ rec] /\ UNCHANGED <<val, L, run, now, ran>>
Begin(a, rec) == Begin0(a, rec) /\ UNCHANGED held
(* k = "x": fulfilling with a value that turns out not to be copyable *)
CallSettle(a, k, v, th) == k \in {"f", "r", "x"} /\ Begin(a, [s |-> "settle", k |-> k, v |-> v, th |-> th])
CallReg(a, id, kind, th) == kind \in {"s", "tf", "tr", "tb"} /\ held' = held \union {id}
                            /\ Begin0(a, [s |-> "reg", id |-> id, kind |-> kind, th |-> th])
CallAwait(a, th)  == Begin(a, [s |-> "await", th |-> th])
CallGet(a)        == Begin(a, [s |-> "get"])
CallTGet(a, dl)   == Begin(a, [s |-> "tget", dl |-> dl])
CallTryGet(a)     == Begin(a, [s |-> "tryget"])
CallQuery(a, k)   == k \in {"p", "f", "r"} /\ Begin(a, [s |-> "query", k |-> k])

Sel(s, P(_)) == SelectSeq(s, P)
IsS(e) == e.kind \in {"s", "a"}
Matches(o, e) == \/ e.kind = "tb"
                 \/ e.kind = "tf" /\ o.k = "f"
                 \/ e.kind = "tr" /\ o.k = "r"
Fin(a, r) == [ph |-> "done", r |-> r] @@ ps[a]
SettleLin(a) ==
    /\ ps[a].s = "settle" /\ ps[a].ph = "called"
    /\ IF val.k # "p"
       THEN ps' = [ps EXCEPT ![a] = Fin(a, 0)] /\ UNCHANGED <<val, L, run>>
       ELSE IF ps[a].k = "x" THEN ps' = [ps EXCEPT ![a] = Fin(a, 2)] /\ UNCHANGED <<val, L, run>>   \* it fails, as if never tried
       ELSE LET o == [k |-> ps[a].k, v |-> ps[a].v] IN
            /\ val' = o
            /\ run' = [run EXCEPT ![a] = [S |-> SelectSeq(L, IsS), T |-> SelectSeq(L, LAMBDA e : Matches(o, e))]]
            /\ L' = <<>>
            /\ ps' = [ps EXCEPT ![a] = Fin(a, 1)]
    /\ UNCHANGED <<now, ran, held>>
RegLin(a) ==
    /\ ps[a].s = "reg" /\ ps[a].ph = "called"
    /\ LET e == [id |-> ps[a].id, kind |-> ps[a].kind] IN
       IF val.k = "p" THEN L' = Append(L, e) /\ UNCHANGED run
       ELSE /\ UNCHANGED L
            /\ run' = [run EXCEPT ![a] = IF IsS(e) THEN [NoRun EXCEPT !.S = <<e>>]
                                         ELSE IF Matches(val, e) THEN [NoRun EXCEPT !.T = <<e>>] ELSE NoRun]
    /\ ps' = [ps EXCEPT ![a] = Fin(a, 0)]
    /\ UNCHANGED <<val, now, ran, held>>
AwaitLin(a) ==
    /\ ps[a].s = "await" /\ ps[a].ph = "called"
    /\ IF val.k = "p" THEN L' = Append(L, [id |-> a, kind |-> "a"]) /\ ps' = [ps EXCEPT ![a].ph = "susp"]
       ELSE UNCHANGED L /\ ps' = [ps EXCEPT ![a].ph = "done"]
    /\ UNCHANGED <<val, run, now, ran, held>>
(* get, try_get, queries: one look at the outcome; a blocking get looks only at a settled promise, a timed get may give *)
(* up on a pending one once its deadline has passed *)
LookLin(a) ==
    /\ ps[a].s \in {"get", "tget", "tryget", "query"} /\ ps[a].ph = "called"
    /\ ps[a].s = "get" => val.k # "p"
    /\ ps[a].s = "tget" /\ val.k = "p" => now >= ps[a].dl
    /\ ps' = [ps EXCEPT ![a] = [ph |-> "done", o |-> val] @@ @]
    /\ UNCHANGED <<val, L, run, now, ran, held>>
Silent(a) == SettleLin(a) \/ RegLin(a) \/ AwaitLin(a) \/ LookLin(a)
Tick(t) == t > now /\ now' = t /\ UNCHANGED <<val, L, ps, run, ran, held>>

(* Callbacks and coroutines run inside the operation that settled the promise or registered them on a settled promise. *)
(* callback id is invoked with outcome o (settle callbacks: without one) on thread th *)
RunCb(id, k, v, th) ==
    \E a \in Actors :
      /\ ps[a].s \in {"settle", "reg"} /\ ps[a].ph = "done" /\ ps[a].th = th
      /\ \/ /\ run[a].S # <<>> /\ Head(run[a].S) = [id |-> id, kind |-> "s"] /\ k = "s"
            /\ run' = [run EXCEPT ![a].S = Tail(@)]
         \/ /\ run[a].T # <<>> /\ Head(run[a].T).id = id /\ k = val.k /\ v = val.v
            /\ run' = [run EXCEPT ![a].T = Tail(@)]
      /\ ran' = ran \union {id}
      /\ UNCHANGED <<val, L, ps, now, held>>
(* an awaiting coroutine continues with the outcome *)
Resume(a, k, v, th) ==
    /\ ps[a].s = "await" /\ k = val.k /\ v = val.v
    /\ \/ ps[a].ph = "done" /\ th = ps[a].th /\ UNCHANGED run
       \/ /\ ps[a].ph = "susp"
          /\ \E b \in Actors :
               /\ ps[b].s = "settle" /\ ps[b].ph = "done" /\ ps[b].th = th
               /\ run[b].S # <<>> /\ Head(run[b].S) = [id |-> a, kind |-> "a"]
               /\ run' = [run EXCEPT ![b].S = Tail(@)]
    /\ ps' = [ps EXCEPT ![a] = Idle]
    /\ UNCHANGED <<val, L, now, ran, held>>
RetSettle(a, r) == /\ ps[a].s = "settle" /\ ps[a].ph = "done" /\ r = ps[a].r /\ run[a] = NoRun
                   /\ ps' = [ps EXCEPT ![a] = Idle] /\ UNCHANGED <<val, L, run, now, ran, held>>
RetReg(a) == /\ ps[a].s = "reg" /\ ps[a].ph = "done" /\ run[a] = NoRun
             /\ ps' = [ps EXCEPT ![a] = Idle] /\ UNCHANGED <<val, L, run, now, ran, held>>
RetLook(a, k, v) == /\ ps[a].s \in {"get", "tget", "tryget"} /\ ps[a].ph = "done" /\ ps[a].o = [k |-> k, v |-> v]
                    /\ ps' = [ps EXCEPT ![a] = Idle] /\ UNCHANGED <<val, L, run, now, ran, held>>
RetQuery(a, r) == /\ ps[a].s = "query" /\ ps[a].ph = "done" /\ r = (ps[a].o.k = ps[a].k)
                  /\ ps' = [ps EXCEPT ![a] = Idle] /\ UNCHANGED <<val, L, run, now, ran, held>>
(* a callback that can not run any more is destroyed *)
Ids(q) == {q[i].id : i \in 1..Len(q)}
Drop(id) == /\ id \in held /\ id \notin Ids(L)
            /\ \A a \in Actors : /\ id \notin Ids(run[a].S) \union Ids(run[a].T)
                                /\ ~(ps[a].s = "reg" /\ ps[a].id = id /\ ps[a].ph = "called")
            /\ held' = held \ {id} /\ UNCHANGED <<val, L, ps, run, now, ran>>
Waiting == {L[i].id : i \in {j \in 1..Len(L) : L[j].kind = "a"}}
Quiescent(susp) ==
    /\ Waiting = susp
    /\ \A a \in Actors : ps[a] = Idle \/ a \in susp
    /\ \A a \in Actors : run[a] = NoRun
    /\ held = Ids(L) \ Waiting
    /\ UNCHANGED vars

(* ---------------------------------------------------------------- properties *)
SettledRunsAll == val.k # "p" => L = <<>>
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i].id # s[j].id
Pend == L \o run[CHOOSE a \in Actors : TRUE].S
NothingTwice == \A a \in Actors : Distinct(run[a].S) /\ Distinct(run[a].T)
NotAgain == \A a \in Actors : \A i \in 1..Len(run[a].T) : run[a].T[i].id \notin ran
OnlyMatching == \A a \in Actors : \A i \in 1..Len(run[a].T) : Matches(val, run[a].T[i])
(* what is still to run exists *)
Alive == \A id \in Ids(L) \ Waiting : id \in held
Inv == Alive /\ SettledRunsAll /\ NothingTwice /\ NotAgain /\ OnlyMatching
SettlesOnce == [][val.k # "p" => val' = val]_vars
=============================================================================
