-------------------------------- MODULE Stop --------------------------------
(* stop_source, stop_token and stop_callback as seen by their users. Sources and tokens are numbered objects (slots) that *)
(* refer to a state or to none (0). Clients and running callbacks are actors.                                             *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Clients, Cbs, Slots, States
Actors == Clients \cup Cbs

VARIABLES req,   \* states a stop has been requested on
          src,   \* source slots -> state or 0
          tok,   \* token slots -> state or 0
          cb,    \* the callbacks
          ps     \* what each actor is doing
vars == <<req, src, tok, cb, ps>>

Idle == [s |-> "idle"]
InitWith(sr, tk) ==
    /\ req = {} /\ src = sr /\ tok = tk
    /\ cb = [c \in Cbs |-> [st |-> "none"]]
    /\ ps = [a \in Actors |-> IF a \in Clients THEN Idle ELSE [s |-> "off"]]

(* An overwritten source counts until its state has been told. *)
Sources(s) == Cardinality({i \in Slots : src[i] = s}) + Cardinality({a \in Actors : ps[a].s = "src" /\ ps[a].ph = "lose" /\ ps[a].old = s})

(* ---------------------------------------------------------------- operations on sources *)
(* op: new (with a new state t), none, copy (i := j), move, swap *)
CallSrc(a, op, i, j, t) ==
    /\ ps[a] = Idle
    /\ op = "new" => \A k \in Slots : src[k] # t /\ tok[k] # t
    /\ ps' = [ps EXCEPT ![a] = [s |-> "src", ph |-> "called", op |-> op, i |-> i, j |-> j, t |-> t, old |-> 0]]
    /\ UNCHANGED <<req, src, tok, cb>>
SrcLin(a) ==
    /\ ps[a].s = "src" /\ ps[a].ph = "called"
    /\ LET p == ps[a]
           lost == IF p.op = "swap" \/ (p.op \in {"copy", "move"} /\ p.i = p.j) THEN 0 ELSE src[p.i]
       IN
       /\ src' = CASE p.op = "new"  -> [src EXCEPT ![p.i] = p.t]
                   [] p.op = "none" -> [src EXCEPT ![p.i] = 0]
                   [] p.op = "copy" -> [src EXCEPT ![p.i] = src[p.j]]
                   [] p.op = "move" -> IF p.i = p.j THEN src ELSE [src EXCEPT ![p.i] = src[p.j], ![p.j] = 0]
                   [] p.op = "swap" -> [src EXCEPT ![p.i] = src[p.j], ![p.j] = src[p.i]]
       /\ ps' = [ps EXCEPT ![a].ph = "lose", ![a].old = lost]
    /\ UNCHANGED <<req, tok, cb>>
SrcLose(a) ==
    /\ ps[a].s = "src" /\ ps[a].ph = "lose"
    /\ ps' = [ps EXCEPT ![a].ph = "done"]
    /\ UNCHANGED <<req, src, tok, cb>>
RetSrc(a) ==
    /\ ps[a].s = "src" /\ ps[a].ph = "done"
    /\ ps' = [ps EXCEPT ![a] = Idle]
    /\ UNCHANGED <<req, src, tok, cb>>

(* ---------------------------------------------------------------- operations on tokens and queries *)
(* Tokens have no effect on others, so one step is enough: get (from source j), copy, move, swap. *)
TokOp(a, op, i, j) ==
    /\ ps[a] = Idle
    /\ tok' = CASE op = "get"  -> [tok EXCEPT ![i] = src[j]]
                [] op = "copy" -> [tok EXCEPT ![i] = tok[j]]
                [] op = "move" -> IF i = j THEN tok ELSE [tok EXCEPT ![i] = tok[j], ![j] = 0]
                [] op = "swap" -> [tok EXCEPT ![i] = tok[j], ![j] = tok[i]]
    /\ UNCHANGED <<req, src, cb, ps>>
CallQuery(a, op, i, j) ==
    /\ ps[a] = Idle
    /\ ps' = [ps EXCEPT ![a] = [s |-> "query", ph |-> "called", op |-> op, i |-> i, j |-> j]]
    /\ UNCHANGED <<req, src, tok, cb>>
QueryLin(a) ==
    /\ ps[a].s = "query" /\ ps[a].ph = "called"
    /\ LET i == ps[a].i
           j == ps[a].j
       IN ps' = [ps EXCEPT ![a] = [s |-> "query", ph |-> "done",
              v |-> CASE ps[a].op = "sreq" -> src[i] \in req
                      [] ps[a].op = "spos" -> src[i] # 0
                      [] ps[a].op = "treq" -> tok[i] \in req
                      [] ps[a].op = "tpos" -> tok[i] # 0 /\ (tok[i] \in req \/ Sources(tok[i]) > 0)
                      [] ps[a].op = "seq"  -> src[i] = src[j]
                      [] ps[a].op = "teq"  -> tok[i] = tok[j]]]
    /\ UNCHANGED <<req, src, tok, cb>>
RetQuery(a, v) ==
    /\ ps[a].s = "query" /\ ps[a].ph = "done" /\ v = ps[a].v
    /\ ps' = [ps EXCEPT ![a] = Idle]
    /\ UNCHANGED <<req, src, tok, cb>>

(* ---------------------------------------------------------------- requesting a stop *)
CallReq(a, i, th) ==
    /\ ps[a] = Idle
    /\ ps' = [ps EXCEPT ![a] = [s |-> "req", ph |-> "called", t |-> src[i], th |-> th]]
    /\ UNCHANGED <<req, src, tok, cb>>
ReqLin(a) ==
    /\ ps[a].s = "req" /\ ps[a].ph = "called"
    /\ IF ps[a].t = 0 \/ ps[a].t \in req
       THEN ps' = [ps EXCEPT ![a].ph = "lost"] /\ UNCHANGED req
       ELSE ps' = [ps EXCEPT ![a].ph = "won"] /\ req' = req \cup {ps[a].t}
    /\ UNCHANGED <<src, tok, cb>>
(* The winner runs the registered callbacks one after the other ... *)
ByRequest(s) == {c \in Cbs : cb[c].st \in {"picked", "run"} /\ cb[c].t = s /\ ~cb[c].now}
Pick(c) ==
    /\ cb[c].st = "reg"
    /\ \E a \in Actors :
         /\ ps[a].s = "req" /\ ps[a].ph = "won" /\ ps[a].t = cb[c].t
         /\ cb' = [cb EXCEPT ![c].st = "picked", ![c].th = ps[a].th]
    /\ ByRequest(cb[c].t) = {}
    /\ UNCHANGED <<req, src, tok, ps>>
Run(c, th) ==
    /\ cb[c].st = "picked" /\ cb[c].th = th
    /\ cb' = [cb EXCEPT ![c].st = "run"]
    /\ ps' = [ps EXCEPT ![c] = Idle]
    /\ UNCHANGED <<req, src, tok>>
End(c) ==
    /\ cb[c].st = "run" /\ ps[c] = Idle
    /\ cb' = [cb EXCEPT ![c].st = "done"]
    /\ ps' = [ps EXCEPT ![c] = [s |-> "off"]]
    /\ UNCHANGED <<req, src, tok>>
(* ... and returns when all of them have run or were deregistered. *)
RetReq(a, v) ==
    /\ ps[a].s = "req"
    /\ \/ ps[a].ph = "lost" /\ ~v
       \/ /\ ps[a].ph = "won" /\ v
          /\ \A c \in Cbs : ~(cb[c].st = "reg" /\ cb[c].t = ps[a].t)
          /\ ByRequest(ps[a].t) = {}
    /\ ps' = [ps EXCEPT ![a] = Idle]
    /\ UNCHANGED <<req, src, tok, cb>>

(* ---------------------------------------------------------------- registering and deregistering callbacks *)
CallReg(a, c, i, th) ==
    /\ ps[a] = Idle /\ cb[c].st = "none"
    /\ cb' = [cb EXCEPT ![c] = [st |-> "called", t |-> tok[i], th |-> th, now |-> FALSE]]
    /\ ps' = [ps EXCEPT ![a] = [s |-> "reg", c |-> c]]
    /\ UNCHANGED <<req, src, tok>>
RegLin(c) ==
    /\ cb[c].st = "called"
    /\ LET s == cb[c].t IN
       cb' = [cb EXCEPT ![c].st = CASE s = 0          -> "never"
                                    [] s \in req      -> "picked"
                                    [] s # 0 /\ s \notin req /\ Sources(s) = 0 -> "never"
                                    [] OTHER          -> "reg",
                        ![c].now = (s \in req)]
    /\ UNCHANGED <<req, src, tok, ps>>
RetReg(a) ==
    /\ ps[a].s = "reg"
    /\ LET c == ps[a].c IN cb[c].st # "called" /\ (cb[c].now => cb[c].st = "done")
    /\ ps' = [ps EXCEPT ![a] = Idle]
    /\ UNCHANGED <<req, src, tok, cb>>
CallDereg(a, c, th) ==
    /\ ps[a] = Idle /\ cb[c].st \in {"reg", "picked", "run", "done", "never"}
    /\ ps' = [ps EXCEPT ![a] = [s |-> "dereg", ph |-> "called", c |-> c, th |-> th]]
    /\ UNCHANGED <<req, src, tok, cb>>
DeregLin(a) ==
    /\ ps[a].s = "dereg" /\ ps[a].ph = "called"
    /\ ps' = [ps EXCEPT ![a].ph = "done"]
    /\ cb' = IF cb[ps[a].c].st = "reg" THEN [cb EXCEPT ![ps[a].c].st = "removed"] ELSE cb
    /\ UNCHANGED <<req, src, tok>>
(* Waits for a callback that runs on another thread. *)
RetDereg(a) ==
    /\ ps[a].s = "dereg" /\ ps[a].ph = "done"
    /\ LET c == cb[ps[a].c] IN c.st \in {"removed", "done", "never"} \/ (c.st = "run" /\ c.th = ps[a].th)
    /\ ps' = [ps EXCEPT ![a] = Idle]
    /\ UNCHANGED <<req, src, tok, cb>>

Silent(a) == SrcLin(a) \/ SrcLose(a) \/ QueryLin(a) \/ ReqLin(a) \/ DeregLin(a)
SilentCb(c) == RegLin(c) \/ Pick(c)

(* all clients are finished *)
Quiescent ==
    /\ \A a \in Clients : ps[a] = Idle
    /\ \A c \in Cbs : cb[c].st \notin {"called", "picked", "run"}
    /\ UNCHANGED vars

(* ---------------------------------------------------------------- properties *)
TypeOK == req \subseteq States /\ (\A i \in Slots : src[i] \in States \cup {0} /\ tok[i] \in States \cup {0})
OneWinner == \A a, b \in Actors : (a # b /\ ps[a].s = "req" /\ ps[b].s = "req" /\ ps[a].ph = "won" /\ ps[b].ph = "won") => ps[a].t # ps[b].t
RunsOnlyRequested == \A c \in Cbs : cb[c].st \in {"picked", "run", "done"} => cb[c].t \in req
(* a registered callback of a requested state has somebody who is going to run it *)
NotForgotten == \A c \in Cbs : (cb[c].st = "reg" /\ cb[c].t \in req) => \E a \in Actors : ps[a].s = "req" /\ ps[a].ph = "won" /\ ps[a].t = cb[c].t
OneAtATime == \A s \in States : Cardinality(ByRequest(s)) <= 1
Inv == TypeOK /\ OneWinner /\ RunsOnlyRequested /\ NotForgotten /\ OneAtATime
(* a callback runs at most once, never after it was deregistered; a request is never taken back *)
Order(x) == CASE x = "none" -> 0 [] x = "called" -> 1 [] x = "reg" -> 2 [] x = "picked" -> 3 [] x = "run" -> 4 [] OTHER -> 5
Once == [][req \subseteq req' /\ \A c \in Cbs : cb'[c].st # cb[c].st => Order(cb[c].st) < Order(cb'[c].st)]_vars
=============================================================================
