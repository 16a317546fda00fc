----------------------------- MODULE LogsTrace ------------------------------
(* Recorded histories with logging: what every operation added to which file. *)
EXTENDS Logs, TraceLib
VARIABLES l, cfg, nets, skip, sc

Init == l = 1 /\ cfg = <<>> /\ nets = <<>> /\ skip = TRUE /\ sc = -1
Nets(e) == [x \in {e.nets[i].name : i \in 1..Len(e.nets)} |->
                LET i == FirstIdx(e.nets, LAMBDA y : y.name = x) IN LogNet(x, e.nets[i].host)]
\* sequences of lines the server sent and was sent, in this order
RECURSIVE Both(_, _, _, _, _)
Both(n, lines, fromServer, e, out) ==
    IF lines = <<>> THEN [net |-> n, out |-> out]
    ELSE LET x == lines[1]
             ll == IF fromServer THEN x ELSE WithOrigin(x, Mask(IF e.e = "cli" THEN [nick |-> n.st.me.nick, user |-> "u", host |-> "localhost"] ELSE n.st.me))
         IN Both(IF fromServer THEN After1(n, ll, e.now) ELSE n, Tail(lines), fromServer, e,
                 out \o Written(cfg, n, ll, fromServer, e.time))
RECURSIVE Sent(_, _, _, _)
\* what the proxy said to the servers: <<network, lines>>...
Sent(e, ns, s, out) ==
    IF s = <<>> THEN out
    ELSE Sent(e, ns, Tail(s), Both(ns[s[1][1]], s[1][2], FALSE, e, out).out)
Texts(w, f) == SeqMap(LAMBDA x : x[2], SelectSeq(w, LAMBDA x : x[1] = f))
Times(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Times(a, a[i]) = Times(b, a[i])
\* the conversations one event belongs to have no order of their own
Agrees(w, got, ordered) ==
    /\ {w[i][1] : i \in 1..Len(w)} = {got[i][1] : i \in 1..Len(got)}
    /\ \A i \in 1..Len(got) : LET t == Texts(w, got[i][1]) IN IF ordered THEN t = got[i][2] ELSE SameBag(t, got[i][2])
Step(e) ==
    IF e.e = "died" THEN Reject(sc, l, "died", e.op) /\ skip' = TRUE /\ UNCHANGED nets
    ELSE LET a == IF e.e = "srv" THEN Both(nets[e.net], e.lines, TRUE, e, <<>>) 
                  \* whatever ended the session, the user left
                  ELSE IF e.e = "lost" THEN Both(nets[e.net], <<<<"", "QUIT">>>>, FALSE, e, <<>>)
                  ELSE [net |-> 0, out |-> <<>>]
             ns == CASE e.e = "srv" -> [nets EXCEPT ![e.net] = a.net]
                     [] e.e = "conn" -> [nets EXCEPT ![e.net] = LogUp(@, e.nick, e.user, e.host)]
                     [] OTHER -> nets
             w == a.out \o Sent(e, ns, e.sent, <<>>)
         IN IF Agrees(w, e.logged, e.e = "srv" /\ Len(e.lines) > 1)
            THEN /\ UNCHANGED skip
                 /\ nets' = ns
            ELSE Reject(sc, l, "logged", w) /\ skip' = TRUE /\ UNCHANGED nets
Next ==
    /\ l <= TraceLen
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.e = "reset" THEN nets' = (IF Has(e, "missing") THEN nets ELSE Nets(e)) /\ cfg' = (IF Has(e, "missing") THEN cfg ELSE [file |-> e.file, fmt |-> e.fmt]) /\ skip' = FALSE /\ sc' = e.sc
       ELSE /\ UNCHANGED <<sc, cfg>>
            /\ IF skip THEN UNCHANGED <<nets, skip>> ELSE Step(e)
    /\ IF l = TraceLen THEN Done(l) ELSE TRUE
Spec == Init /\ [][Next]_<<l, cfg, nets, skip, sc>>
=============================================================================
