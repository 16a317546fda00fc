----------------------------- MODULE AwayTrace -----------------------------
(* Recorded histories of auto-away.                                           *)
EXTENDS Away, TraceLib
VARIABLES l, A, skip, sc

Init == l = 1 /\ A = AwayInit(<<>>, 0, "", "", 0, 0) /\ skip = TRUE /\ sc = -1
Start(e) == AwayInit(e.nets, e.limit, e.msg, e.nick, IF e.idle < 30 THEN 0 ELSE e.idle, e.now)
Result(e) ==
    CASE e.e = "attach" -> Join(A, e.net, e.c)
      [] e.e = "detach" -> Leave(A, e.net, e.c)
      [] e.e = "cli" -> IF ~e.said THEN R(A)
                        ELSE IF e.line[2] = "AWAY" THEN SaysAway(A, e.net, Tail(e.line))
                        ELSE IF e.line[2] \in {"PRIVMSG", "NOTICE"} THEN Speaks(A, e.net) ELSE R(A)
      [] e.e = "up" -> LoggedIn(A, e.net)
      [] e.e = "lost" -> Lost(A, e.net)
      [] e.e = "is" -> ServerSays(A, e.net, e.away)
      [] e.e = "ctcp" -> R(A)
      [] e.e = "tick" -> Pass(R(A), e.n)
Step(e) ==
    IF e.e = "died" THEN Reject(sc, l, "died", e.op) /\ skip' = TRUE /\ UNCHANGED A
    ELSE LET r == Result(e) IN
         IF (\A n \in DOMAIN A.nets : r.out[n] = e.out[n]) THEN A' = r.a /\ UNCHANGED skip
         ELSE Reject(sc, l, "out", r.out) /\ skip' = TRUE /\ UNCHANGED A
Next ==
    /\ l <= TraceLen
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.e = "reset" THEN A' = (IF Has(e, "missing") THEN A ELSE Start(e)) /\ skip' = FALSE /\ sc' = e.sc
       ELSE /\ UNCHANGED sc
            /\ IF skip THEN UNCHANGED <<A, skip>> ELSE Step(e)
    /\ IF l = TraceLen THEN Done(l) ELSE TRUE
Spec == Init /\ [][Next]_<<l, A, skip, sc>>
=============================================================================
