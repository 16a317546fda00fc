----------------------------- MODULE MuxTrace -----------------------------
(* Recorded histories of the proxy with several networks and clients.        *)
(* Every event carries the lines that came in and, per peer, the lines that   *)
(* went out; the specification says what had to go out.                       *)
EXTENDS Mux, TraceLib
VARIABLES l, W, cfg, chk, skip, sc

EmptyW == [nets |-> [n \in {} |-> 0], cl |-> [c \in {} |-> 0]]
Init == l = 1 /\ W = EmptyW /\ cfg = [n \in {} |-> 0] /\ chk = "" /\ skip = TRUE /\ sc = -1
Conf(e) == [n \in {e.nets[i].name : i \in 1..Len(e.nets)} |->
              LET x == e.nets[CHOOSE i \in 1..Len(e.nets) : e.nets[i].name = n]
              IN [report |-> e.report, offset |-> e.offset, autocmd |-> x.autocmd, join |-> x.join]]
Start(e) == [nets |-> [n \in {e.nets[i].name : i \in 1..Len(e.nets)} |->
                        [st |-> InitState("", "", ""), phase |-> "off", q |-> <<>>, order |-> <<>>]],
             cl |-> [c \in {} |-> 0]]

Cat2(a, b) == [x \in DOMAIN b |-> (IF x \in DOMAIN a THEN a[x] ELSE <<>>) \o b[x]]
Both(a, b) == [srv |-> Cat2(a.srv, b.srv), cl |-> Cat2(a.cl, b.cl), loose |-> a.loose \cup b.loose]
RECURSIVE Feed(_, _, _, _, _)
Feed(V, out, e, ls, kind) ==
    IF ls = <<>> THEN [w |-> V, out |-> out]
    ELSE IF kind = "cli" /\ V.cl[e.c].net = NONE THEN [w |-> V, out |-> out]
    ELSE LET r == IF kind = "srv" THEN FromServer(V, cfg, e.net, Head(ls), e.now) ELSE FromClient(V, cfg, e.c, Head(ls), e.now)
         IN Feed(r.w, Both(out, r.out), e, Tail(ls), kind)
Result(e) ==
    CASE e.e = "srv" -> Feed(W, NoOut(W), e, e.lines, "srv")
      [] e.e = "cli" -> Feed(W, NoOut(W), e, e.lines, "cli")
      [] e.e = "attach" -> Attach(W, cfg, e.c, e.net, e.nick, e.user, e.host)
      [] e.e = "detach" -> [w |-> Detach(W, e.c), out |-> [NoOut(W) EXCEPT !.loose = {e.c}]]
      [] e.e = "lost" -> Lost(W, e.net)
      [] e.e = "conn" -> Connected(W, e.net, e.nick, e.user, e.host)
      [] OTHER -> [w |-> W, out |-> NoOut(W)]

Got(e, p) == LET I == {i \in 1..Len(e.out) : e.out[i][1] = p} IN IF I = {} THEN <<>> ELSE e.out[CHOOSE i \in I : TRUE][2]
Map(F(_), q) == [i \in 1..Len(q) |-> F(q[i])]
\* service as a whole
Kinds == IF chk = "P25" THEN {"P03", "P04", "P13", "P14"} ELSE {chk}
\* is this event the business of the property being checked?
Judged(e) ==
    CASE e.e = "srv" ->
           /\ \A i \in 1..Len(e.lines) : KindOfServer(e.lines[i]) \in Kinds
           \* (the end of a login belongs to P06 and P10)
           /\ ~(W.nets[e.net].phase = "login" /\ \E i \in 1..Len(e.lines) : Respcode(e.lines[i]) \in {376, 422})
      [] e.e = "cli" -> \A i \in 1..Len(e.lines) : KindOfClient(e.lines[i]) \in Kinds
      [] e.e \in {"attach", "detach", "idle"} -> chk \in {"P04", "P25"}
      [] OTHER -> FALSE
SrvOk(e, r) ==
    \A n \in DOMAIN r.w.nets :
        LET g == Got(e, n) x == r.out.srv[n] IN
        IF r.w.nets[n].order = <<>> THEN Map(NormReply, g) = Map(NormReply, x) ELSE g = x
CliOk(e, r) ==
    \A c \in DOMAIN r.w.cl \ r.out.loose : Map(Plain, Got(e, c)) = Map(Plain, r.out.cl[c])
OriginLess(e, r) == \A n \in DOMAIN r.w.nets : \A i \in 1..Len(Got(e, n)) : Got(e, n)[i][1] = ""
IdentityOk(e, r) ==
    \A c \in DOMAIN r.w.cl \ r.out.loose :
        Map(Plain, Got(e, c)) = Map(Plain, r.out.cl[c]) => Got(e, c) = r.out.cl[c]
KnownPeers(e, r) == \A i \in 1..Len(e.out) : e.out[i][1] \in (DOMAIN r.w.nets) \cup (DOMAIN r.w.cl)
Ok(e, r) ==
    IF chk = "P20" THEN OriginLess(e, r) /\ IdentityOk(e, r)
    ELSE Judged(e) => (SrvOk(e, r) /\ CliOk(e, r) /\ KnownPeers(e, r))
Step(e) ==
    IF e.e = "died" THEN Reject(sc, l, "died", e.op) /\ skip' = TRUE /\ UNCHANGED W
    ELSE LET r == Result(e) IN
         IF Ok(e, r) THEN W' = r.w /\ UNCHANGED skip
         ELSE Reject(sc, l, "output", [srv |-> r.out.srv, cl |-> r.out.cl]) /\ skip' = TRUE /\ UNCHANGED W
Next ==
    /\ l <= TraceLen
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.e = "reset"
       THEN IF Has(e, "missing") THEN UNCHANGED <<W, cfg, chk>> /\ skip' = FALSE /\ sc' = e.sc
            ELSE W' = Start(e) /\ cfg' = Conf(e) /\ chk' = e.chk /\ skip' = FALSE /\ sc' = e.sc
       ELSE /\ UNCHANGED <<sc, cfg, chk>>
            /\ IF skip THEN UNCHANGED <<W, skip>> ELSE Step(e)
    /\ IF l = TraceLen THEN Done(l) ELSE TRUE
Spec == Init /\ [][Next]_<<l, W, cfg, chk, skip, sc>>
=============================================================================
