-------------------------------- MODULE Away --------------------------------
(* Auto-away over the networks of the proxy: when the user is marked away and *)
(* when that is taken back.  What is said to each server is limited to AWAY   *)
(* and to the nick that goes with being away.                                 *)
(*                                                                            *)
(* A = [limit, msg, nick, idle (0: the time is not looked at), last, now,     *)
(*      order (the networks in configuration order), nets]                    *)
(* network = [up (logged in), away (as the server says), cl (its clients),    *)
(*            order (of the clients' arrival is of no importance)]            *)
EXTENDS Integers, Sequences, FiniteSets

NetInit == [up |-> FALSE, away |-> FALSE, cl |-> {}]
AwayInit(order, limit, msg, nick, idle, t) ==
    [limit |-> limit, msg |-> IF msg = "" THEN "Auto Away" ELSE msg, nick |-> nick, idle |-> idle, last |-> t, now |-> t,
     order |-> order, nets |-> [n \in {order[i] : i \in 1..Len(order)} |-> NetInit]]
Quiet(A) == [n \in DOMAIN A.nets |-> <<>>]
R(A) == [a |-> A, out |-> Quiet(A)]
Say(r, n, l) == [r EXCEPT !.out[n] = Append(@, l)]

\* saying AWAY, whoever does, counts as a sign of life
Touch(r) == [r EXCEPT !.a.last = r.a.now]
Mark(r, n) == Touch(Say(r, n, <<"AWAY", r.a.msg>>))
Clear(r, n) == Touch(Say(r, n, <<"AWAY">>))
Few(A, n) == A.limit < 0 \/ Cardinality(A.nets[n].cl) <= A.limit
Many(A, n) == A.limit >= 0 /\ Cardinality(A.nets[n].cl) > A.limit

\* the periodic look at the clock
Nick(r, n) == IF r.a.nick = "" THEN r ELSE Say(r, n, <<"NICK", r.a.nick>>)
RECURSIVE MarkAll(_, _)
MarkAll(r, ns) ==
    IF ns = <<>> THEN r
    ELSE LET n == Head(ns) N == r.a.nets[n] IN
         MarkAll(IF N.up /\ ~N.away /\ Few(r.a, n) THEN Nick(Mark(r, n), n) ELSE r, Tail(ns))
Second(r) ==
    LET r1 == [r EXCEPT !.a.now = @ + 1] IN
    IF r.a.idle > 0 /\ r1.a.now - r1.a.last > r1.a.idle THEN MarkAll(r1, r.a.order) ELSE r1
RECURSIVE Pass(_, _)
Pass(r, n) == IF n = 0 THEN r ELSE Pass(Second(r), n - 1)

\* the user says something over n: back on all networks
RECURSIVE ClearAll(_, _)
ClearAll(r, ns) ==
    IF ns = <<>> THEN r
    ELSE ClearAll(IF r.a.nets[Head(ns)].up /\ r.a.nets[Head(ns)].away THEN Clear(r, Head(ns)) ELSE r, Tail(ns))
Speaks(A, n) == ClearAll(Touch(R(A)), A.order)
SaysAway(A, n, l) == Touch(Say(R(A), n, l))

Join(A, n, c) ==
    LET A1 == [A EXCEPT !.nets[n].cl = @ \cup {c}] IN
    IF A1.nets[n].up /\ Many(A1, n) THEN Clear(R(A1), n) ELSE R(A1)
Leave(A, n, c) ==
    LET A1 == [A EXCEPT !.nets[n].cl = @ \ {c}] IN
    IF A1.nets[n].up /\ ~A1.nets[n].away /\ A.limit >= 0 /\ Few(A1, n) THEN Mark(R(A1), n) ELSE R(A1)
LoggedIn(A, n) == R([A EXCEPT !.nets[n].up = TRUE])
Lost(A, n) == R([A EXCEPT !.nets[n].up = FALSE, !.nets[n].away = FALSE])
ServerSays(A, n, away) == R([A EXCEPT !.nets[n].away = away])
=============================================================================
