---------------------------- MODULE FramingTrace ----------------------------
(* Recorded bytes of a server and some clients (or lines given to the parser) *)
EXTENDS Framing, TraceLib
VARIABLES l, F, C, skip, sc
v == <<l, F, C, skip, sc>>
Init == l = 1 /\ F = Fresh({}) /\ C = [name |-> <<>>, mask |-> <<>>] /\ skip = TRUE /\ sc = -1
Got(e, p) == LET i == {k \in 1..Len(e.out) : e.out[k][1] = p} IN IF i = {} THEN <<>> ELSE e.out[CHOOSE k \in i : TRUE][2]
\* a batch of lines: how each is read, written and read again
ParseOk(x) == LET f == Form(x[1]) IN
              IF f.none THEN x[2] = <<>>
              ELSE x[2] = FormText(f) /\ x[3] = Text(PrintForm(f)) /\ x[4] = x[2]
Step(e) ==
    CASE e.e = "died" -> Reject(sc, l, "died", e.op) /\ skip' = TRUE /\ UNCHANGED F
      [] e.e = "parse" ->
            LET bad == {i \in 1..Len(e.list) : ~ParseOk(e.list[i])} IN
            IF bad = {} THEN UNCHANGED <<F, skip>>
            ELSE LET x == e.list[CHOOSE i \in bad : \A j \in bad : i <= j] IN
                 Reject(sc, l, ToString(x), LET f == Form(x[1]) IN IF f.none THEN "no line" ELSE <<FormText(f), Text(PrintForm(f))>>) /\ skip' = TRUE /\ UNCHANGED F
      [] OTHER ->
            LET G == CASE e.e = "data" -> Arrive(F, C.mask, C.name, e.c, e.bytes)
                       [] e.e = "stall" -> IF e.on THEN Stall(F, e.c) ELSE Resume(F, e.c)
                       [] OTHER -> F
                bad == {p \in DOMAIN G.in : LET g == Got(e, p) IN
                          ~(IF p \in G.stalled THEN IsPrefixOf(g, G.due[p]) ELSE g = G.due[p])}
            IN IF bad = {} /\ e.closed = <<>> THEN F' = [G EXCEPT !.due = [p \in DOMAIN @ |-> Drop(@[p], Len(Got(e, p)))]] /\ UNCHANGED skip
               ELSE Reject(sc, l, ToString(bad), [p \in bad |-> Text(G.due[p])]) /\ skip' = TRUE /\ UNCHANGED F
Next ==
    /\ l <= TraceLen
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.e = "reset" THEN /\ F' = Fresh(Range(e.peers)) /\ skip' = FALSE /\ sc' = e.sc
                             /\ C' = [name |-> e.name, mask |-> [p \in Range(e.peers) |-> e.mask]]
       ELSE /\ UNCHANGED <<sc, C>>
            /\ IF skip THEN UNCHANGED <<F, skip>> ELSE Step(e)
    /\ IF l = TraceLen THEN Done(l) ELSE TRUE
Spec == Init /\ [][Next]_v
=============================================================================
