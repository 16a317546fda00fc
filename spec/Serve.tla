------------------------------- MODULE Serve -------------------------------
(* Going on serving whatever one of the peers sends: servers, attached clients *)
(* and connections that are not clients yet.  What an offending peer sends is  *)
(* left open here; what is specified is all that it must not change: who stays *)
(* connected, who can hear of it at all, and that every conversation and every *)
(* new client is served afterwards exactly as before.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* a state: phase of the connection of every network (off, odd: connected, in whatever
\* phase its server left it, on: logged in), and the connections to the listener
\* due[p]: what the peers that don't read at the moment are still to receive
Start(nets) == [nets |-> [n \in nets |-> "off"], cl |-> [c \in {} |-> 0], due |-> [p \in {} |-> <<>>]]
Fresh == [kind |-> "new", net |-> "-"]
Put(f, k, x) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN x ELSE f[y]]
IsNet(S, p) == p \in DOMAIN S.nets
Attached(S, n) == {c \in DOMAIN S.cl : S.cl[c].kind = "in" /\ S.cl[c].net = n}
Side(S, n) == {n} \cup Attached(S, n)
\* who may hear anything of what a peer sends
Reach(S, p) == IF IsNet(S, p) THEN Side(S, p) ELSE IF S.cl[p].kind = "in" THEN Side(S, S.cl[p].net) ELSE {p}
Alive(S, p) == IF IsNet(S, p) THEN S.nets[p] # "off" ELSE S.cl[p].kind # "gone"

\* results: the new state s, who must have been closed (close), who may be (may), who may hear
\* of it (hear), the networks connected to (conn), and what has to be received: the lines exp[p]
Res(S, hear) == [s |-> S, may |-> {}, hear |-> hear, conn |-> {}, exp |-> [p \in {} |-> <<>>]]
Drop(f, k) == [y \in DOMAIN f \ {k} |-> f[y]]
Gone(S0, p) == LET S == [S0 EXCEPT !.due = Drop(@, p)] IN IF IsNet(S, p) THEN [S EXCEPT !.nets[p] = "off"] ELSE [S EXCEPT !.cl[p].kind = "gone"]
Offend(S, p, closed) ==
    LET S1 == IF closed THEN Gone(S, p) ELSE IF IsNet(S, p) THEN [S EXCEPT !.nets[p] = "odd"] ELSE S IN
    [Res(S1, Reach(S, p)) EXCEPT !.may = {p}]
Open(S, c) == Res([S EXCEPT !.cl = Put(S.cl, c, Fresh)], {c})
\* the right password, a nick and a user: a welcome, and what there is to know about the network
Login(S, c, n) == [Res([S EXCEPT !.cl[c] = [kind |-> "in", net |-> n]], Side(S, n) \cup {c}) EXCEPT !.exp = (c :> <<"001">>)]
Hang(S, p) == Res(Gone(S, p), Reach(S, p) \ {p})
\* the server goes (back) to a defined phase
Settle(S, n) == Res([S EXCEPT !.nets[n] = "on"], Side(S, n))
\* those that don't read get it later
Deliver(r) == [r EXCEPT !.exp = [p \in DOMAIN r.exp \ DOMAIN r.s.due |-> r.exp[p]],
                        !.s.due = [p \in DOMAIN r.s.due |-> IF p \in DOMAIN r.exp THEN r.s.due[p] \o r.exp[p] ELSE r.s.due[p]]]
Stall(S, p) == Res([S EXCEPT !.due = Put(@, p, <<>>)], {})
Flow(S, p) == [Res([S EXCEPT !.due = Drop(@, p)], {p}) EXCEPT !.exp = (p :> S.due[p])]
\* a message of the server for all, and one of a client for the server
Say(S, n, line) == Deliver([Res(S, Attached(S, n)) EXCEPT !.exp = [c \in Attached(S, n) |-> <<line>>]])
Ask(S, c, line) == LET n == S.cl[c].net IN Deliver([Res(S, Side(S, n) \ {c}) EXCEPT !.exp = (n :> <<line>>)])
Ping(S, c) == [Res(S, {c}) EXCEPT !.exp = (c :> <<"PONG">>)]
\* after the time to wait all that was lost is connected to again
Wait(S) == LET off == {n \in DOMAIN S.nets : S.nets[n] = "off"} IN
           [Res([S EXCEPT !.nets = [n \in DOMAIN S.nets |-> IF n \in off THEN "odd" ELSE S.nets[n]]], DOMAIN S.nets \cup DOMAIN S.cl)
            EXCEPT !.conn = off]
Idle(S) == Res(S, DOMAIN S.nets \cup DOMAIN S.cl)
=============================================================================
