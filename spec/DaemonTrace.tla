---------------------------- MODULE DaemonTrace ----------------------------
(* Recorded bytes of connections to ctrlproxyd and of the proxies behind it.  *)
EXTENDS Daemon, TraceLib
VARIABLES l, D, I, E, due, skip, sc
v == <<l, D, I, E, due, skip, sc>>
Nil == [x \in {} |-> 0]
Init == l = 1 /\ D = Start /\ I = Nil /\ E = Nil /\ due = Nil /\ skip = TRUE /\ sc = -1
Keys(q) == {q[i][1] : i \in 1..Len(q)}
Row(q, k) == q[CHOOSE i \in 1..Len(q) : q[i][1] = k]
Got(e, p) == IF p \in Keys(e.out) THEN Row(e.out, p)[2] ELSE <<>>
ClOf(b) == CHOOSE c \in DOMAIN D.c : D.c[c].b = b

\* due[p]: what a side that can't be written to is still to be sent
Result(e) ==
    CASE e.e = "data" -> Receive(D, E, I, e.c, e.bytes)
      [] e.e = "back" -> Answer(D, ClOf(e.b), e.bytes)
      [] e.e = "close" -> Hangup(D, e.c)
      [] e.e = "bclose" -> Hangup(D, ClOf(e.b))
      [] e.e = "open" -> Res(Fresh(D, e.c), <<>>)
      [] OTHER -> Res(D, <<>>)
Who(e) == IF e.e \in {"back", "bclose"} THEN ClOf(e.b) ELSE IF Has(e, "c") THEN e.c ELSE NONE
NextLine(bs) == LET i == Pos(bs, {LF}) IN IF i = 0 THEN NoLine ELSE ReadLine(Take(bs, i - 1))
AfterLine(bs) == LET i == Pos(bs, {LF}) IN Drop(bs, i)
RECURSIVE Fits(_, _)
Fits(items, bs) ==
    IF items = <<>> THEN bs = <<>>
    ELSE LET it == Head(items) x == NextLine(bs) IN
         CASE it[1] = "bytes" -> Len(bs) >= Len(it[2]) /\ Take(bs, Len(it[2])) = it[2] /\ Fits(Tail(items), Drop(bs, Len(it[2])))
           [] it[1] = "cmd" -> x # NoLine /\ ((Cmd(x) = it[2] /\ Fits(Tail(items), AfterLine(bs))))
           [] it[1] = "maybe" -> Fits(Tail(items), bs) \/ (x # NoLine /\ Cmd(x) = it[2] /\ Fits(Tail(items), AfterLine(bs)))
           [] OTHER -> x = it[2] /\ Fits(Tail(items), AfterLine(bs))
AsItems(ls) == [i \in 1..Len(ls) |-> <<"line", ls[i]>>]
B(c) == "b" \o ToString(D.c[c].b)
Queue(p) == IF p \in DOMAIN due THEN due[p] ELSE <<>>
\* expected for a side of the bridge: with the backlog, unless it's stalled
Expect(e, p, items) == IF p \in DOMAIN due /\ ~(e.e = "stall" /\ e.p = p /\ ~e.on) THEN <<>> ELSE Queue(p) \o items
Sides(r) == DOMAIN r.d.c \cup {"b" \o ToString(i) : i \in 1..r.d.n}
ItemsFor(e, r, p) ==
    IF Who(e) = NONE THEN <<>>
    ELSE IF p = Who(e) THEN r.cl
    ELSE IF p = "b" \o ToString(r.d.c[Who(e)].b) THEN AsItems(r.srv) ELSE <<>>
OutOk(e, r) == \A p \in Sides(r) : Fits(Expect(e, p, ItemsFor(e, r, p)), Got(e, p))
Dead(X) == {c \in DOMAIN X.c : X.c[c].kind = "gone"}
\* both ends go, except the one that went by itself
ShouldClose(e, r) ==
    LET new == Dead(r.d) \ Dead(D) IN
    (new \cup {"b" \o ToString(r.d.c[c].b) : c \in {x \in new : r.d.c[x].b # 0}}) \ (IF e.e = "close" THEN {e.c} ELSE IF e.e = "bclose" THEN {"b" \o ToString(e.b)} ELSE {})
ClosedOk(e, r) == ShouldClose(e, r) = {e.closed[i] : i \in 1..Len(e.closed)}
RanOk(e, r) == e.ran = r.ran
\* the proxy asked is the one of the user named
UserOf(e, r) == r.d.c[Who(e)].user[1]
Bad(e, r) == IF ~OutOk(e, r) THEN "output" ELSE IF ~ClosedOk(e, r) THEN "closed" ELSE IF ~RanOk(e, r) THEN "started"
             ELSE IF Len(e.acc) # r.d.n - D.n \/ (e.acc # <<>> /\ e.acc[1] # UserOf(e, r)) THEN "instance" ELSE ""
Step(e) ==
    IF e.e = "died" THEN Reject(sc, l, "died", e.op) /\ skip' = TRUE /\ UNCHANGED <<D, due>>
    ELSE LET r == Result(e) b == Bad(e, r) IN
         IF b # "" THEN Reject(sc, l, b, [cl |-> r.cl, srv |-> r.srv, ran |-> r.ran, close |-> ShouldClose(e, r)]) /\ skip' = TRUE /\ UNCHANGED <<D, due>>
         ELSE /\ D' = r.d /\ UNCHANGED skip
              /\ due' = IF e.e = "stall"
                        THEN (IF e.on THEN [p \in DOMAIN due \cup {e.p} |-> Queue(p)] ELSE [p \in DOMAIN due \ {e.p} |-> due[p]])
                        ELSE [p \in DOMAIN due |-> due[p] \o ItemsFor(e, r, p)]
Next ==
    /\ l <= TraceLen
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.e = "reset"
       THEN /\ D' = Start /\ due' = Nil /\ skip' = FALSE /\ sc' = e.sc
            /\ I' = [u \in Keys(e.users) |-> [pid |-> Row(e.users, u)[2], sock |-> Row(e.users, u)[3]]]
            /\ E' = [spawn |-> e.spawn]
       ELSE /\ UNCHANGED <<sc, I, E>>
            /\ IF skip THEN UNCHANGED <<D, due, skip>> ELSE Step(e)
    /\ IF l = TraceLen THEN Done(l) ELSE TRUE
Spec == Init /\ [][Next]_v
=============================================================================
