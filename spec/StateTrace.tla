----------------------------- MODULE StateTrace -----------------------------
(* Recorded histories of one network: after every server line the tracked     *)
(* state has to be the one the specification derives from the lines.          *)
EXTENDS State, TraceLib
VARIABLES l, st, skip, sc

Init == l = 1 /\ st = InitState("", "", "") /\ skip = TRUE /\ sc = -1
\* how the nick of somebody else was spelled first does not matter
Spelled(cm, v) == [v EXCEPT !.chans = {[c EXCEPT !.nicks = {<<Fold(cm, x[1]), x[2]>> : x \in c.nicks}] : c \in v.chans}]
Step(e) ==
    LET n == IF e.e = "srv" THEN Apply(st, e.line, e.now) ELSE st
        want == View(n)
    IN IF e.e = "died" THEN Reject(sc, l, "died", e.op) /\ skip' = TRUE /\ UNCHANGED st
       ELSE LET got == IF Has(e, "st") THEN RecView(e.st) ELSE want IN
            IF (got = want \/ Spelled(n.info.cm, got) = Spelled(n.info.cm, want)) /\ (Has(e, "st") => SettersOk(n, e.st)) THEN st' = n /\ UNCHANGED skip
            ELSE Reject(sc, l, ToString(Diff(want, got)), want) /\ skip' = TRUE /\ UNCHANGED st
Next ==
    /\ l <= TraceLen
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.e = "reset" THEN st' = InitState(e.nick, e.user, e.host) /\ skip' = FALSE /\ sc' = e.sc
       ELSE /\ UNCHANGED sc
            /\ IF skip THEN UNCHANGED <<st, skip>> ELSE Step(e)
    /\ IF l = TraceLen THEN Done(l) ELSE TRUE
Spec == Init /\ [][Next]_<<l, st, skip, sc>>
=============================================================================
