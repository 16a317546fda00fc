----------------------------- MODULE ServeTrace ----------------------------
(* What was received by whom while one of the peers misbehaved.               *)
EXTENDS Serve, TraceLib
VARIABLES l, S, skip, sc
v == <<l, S, skip, sc>>
Init == l = 1 /\ S = Start({}) /\ skip = TRUE /\ sc = -1
SetOf(q) == {q[i] : i \in 1..Len(q)}
Keys(q) == {q[i][1] : i \in 1..Len(q)}
Got(e, p) == IF p \in Keys(e.hits) THEN e.hits[CHOOSE i \in 1..Len(e.hits) : e.hits[i][1] = p][2] ELSE <<>>
Result(e) ==
    CASE e.e = "bad" -> Offend(S, e.p, e.p \in SetOf(e.closed))
      [] e.e = "open" -> Open(S, e.c)
      [] e.e = "login" -> Login(S, e.c, e.net)
      [] e.e \in {"hang", "lost"} -> Hang(S, e.p)
      [] e.e = "settle" -> Settle(S, e.net)
      [] e.e = "say" -> Say(S, e.net, e.line)
      [] e.e = "ask" -> Ask(S, e.c, e.line)
      [] e.e = "ping" -> Ping(S, e.c)
      [] e.e = "stall" -> Stall(S, e.p)
      [] e.e = "flow" -> Flow(S, e.p)
      [] e.e = "wait" -> Wait(S)
      [] OTHER -> Idle(S)
Want(r, p) == IF p \in DOMAIN r.exp THEN r.exp[p] ELSE <<>>
\* the others on the network are shown what a client said
Hits(e, r) ==
    CASE e.e \in {"say"} -> \A p \in DOMAIN r.s.nets \cup DOMAIN r.s.cl : Got(e, p) = Want(r, p)
      [] e.e = "ask" -> \A p \in DOMAIN r.s.nets : Got(e, p) = Want(r, p)
      [] e.e = "flow" -> Got(e, e.p) = Want(r, e.p)
      [] e.e \in {"login", "ping"} -> Got(e, e.c) = Want(r, e.c)
      [] OTHER -> TRUE
Bad(e, r) ==
    IF ~(SetOf(e.closed) \subseteq r.may) THEN "closed"
    ELSE IF ~(SetOf(e.who) \subseteq r.hear) THEN "heard"
    ELSE IF SetOf(e.acc) # r.conn THEN "connections"
    ELSE IF ~Hits(e, r) THEN "served" ELSE ""
Step(e) ==
    IF e.e = "died" THEN Reject(sc, l, "died", e.op) /\ skip' = TRUE /\ UNCHANGED S
    ELSE LET r == Result(e) b == Bad(e, r) IN
         IF b = "" THEN S' = r.s /\ UNCHANGED skip
         ELSE Reject(sc, l, b, [may |-> r.may, hear |-> r.hear, conn |-> r.conn, exp |-> r.exp]) /\ skip' = TRUE /\ UNCHANGED S
Next ==
    /\ l <= TraceLen
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.e = "reset"
       THEN /\ S' = [Start(SetOf(e.nets)) EXCEPT !.nets = [n \in SetOf(e.nets) |-> "odd"]]
            /\ skip' = FALSE /\ sc' = e.sc
       ELSE UNCHANGED sc /\ (IF skip THEN UNCHANGED <<S, skip>> ELSE Step(e))
    /\ IF l = TraceLen THEN Done(l) ELSE TRUE
Spec == Init /\ [][Next]_v
=============================================================================
