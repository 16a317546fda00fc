--------------------------- MODULE IsupportTrace ----------------------------
(* Recorded advertisements: given to the parser word by word ("tokens"), or   *)
(* by servers to the proxy, with what clients attaching were told.            *)
EXTENDS Isupport, TraceLib
VARIABLES l, C, up, skip, sc
v == <<l, C, up, skip, sc>>
Init == l = 1 /\ C = NoCaps /\ up = FALSE /\ skip = TRUE /\ sc = -1
Pairs(s) == {SubSeq(s, 2 * i - 1, 2 * i) : i \in 1..(Len(s) \div 2)}
TokensOk(e) ==
    LET D == AdvertiseAll(NoCaps, e.toks)
        inter == CharSet(D.info.psyms) \ CharSet(LETTERS)
    IN <<Range(e.words) = Words(D) /\ Len(e.words) = Cardinality(Words(D)), e.cls = Classes(D), Pairs(e.mark) = Marks(D),
         {x \in Pairs(e.status) : Ch(x, 1) \in {Ch(y, 1) : y \in Statuses(D)}} = Statuses(D) /\ {Ch(x, 1) : x \in Pairs(e.status)} = inter,
         CharSet(e.chan) = CharSet(D.info.chantypes) >>
Fail(why, want) == Reject(sc, l, why, want) /\ skip' = TRUE /\ UNCHANGED <<C, up>>
Step(e) ==
    CASE e.e = "died" -> Fail("died", e.op)
      [] e.e = "tokens" -> LET r == TokensOk(e) IN
            IF \A i \in 1..Len(r) : r[i] THEN UNCHANGED <<C, up, skip>>
            ELSE LET D == AdvertiseAll(NoCaps, e.toks) IN Fail(ToString(r), <<Words(D), Classes(D), Marks(D), Statuses(D), D.info.chantypes>>)
      [] e.e = "conn" -> C' = NoCaps /\ up' = FALSE /\ UNCHANGED skip
      [] e.e = "srv" ->
            /\ C' = IF Respcode(e.line) = 5 /\ Len(e.line) >= 4 THEN Advertised(C, e.line) ELSE C
            /\ up' = (up \/ Respcode(e.line) \in {376, 422})
            /\ UNCHANGED skip
      [] e.e = "attach" ->
            LET want == Words(ToClients(C)) IN
            IF ~up \/ (Range(e.words) = want /\ Len(e.words) = Cardinality(want) /\ e.most <= 15) THEN UNCHANGED <<C, up, skip>>
            ELSE Fail("told", [more |-> Range(e.words) \ want, less |-> want \ Range(e.words)])
      [] OTHER -> UNCHANGED <<C, up, skip>>
Next ==
    /\ l <= TraceLen
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.e = "reset" THEN C' = NoCaps /\ up' = FALSE /\ skip' = FALSE /\ sc' = e.sc
       ELSE UNCHANGED sc /\ IF skip THEN UNCHANGED <<C, up, skip>> ELSE Step(e)
    /\ IF l = TraceLen THEN Done(l) ELSE TRUE
Spec == Init /\ [][Next]_v
=============================================================================
