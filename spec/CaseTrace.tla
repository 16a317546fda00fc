----------------------------- MODULE CaseTrace ------------------------------
(* Recorded comparisons of names: a against a list of <<b, n, answer>>.       *)
EXTENDS Case, TraceLib
VARIABLES l, skip, sc
Init == l = 1 /\ skip = TRUE /\ sc = -1
Wrong(e) == {i \in 1..Len(e.list) : SameUpto(e.cm, e.a, e.list[i][1], e.list[i][2]) # (e.list[i][3] = 1)}
Step(e) ==
    IF e.e = "died" THEN Reject(sc, l, "died", e.op) /\ skip' = TRUE
    ELSE LET w == Wrong(e) IN
         IF w = {} THEN UNCHANGED skip
         ELSE LET x == e.list[CHOOSE i \in w : \A j \in w : i <= j] IN
              Reject(sc, l, ToString(<<e.cm, Text(e.a), Text(x[1]), x[2]>>), [same |-> x[3] # 1]) /\ skip' = TRUE
Next ==
    /\ l <= TraceLen
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.e = "reset" THEN skip' = FALSE /\ sc' = e.sc
       ELSE UNCHANGED sc /\ IF skip THEN UNCHANGED skip ELSE Step(e)
    /\ IF l = TraceLen THEN Done(l) ELSE TRUE
Spec == Init /\ [][Next]_<<l, skip, sc>>
=============================================================================
