---------------------------- MODULE FiltersTrace ----------------------------
(* Recorded histories with filters and hooks: every event carries, besides    *)
(* what went out, the invocations of the filters and hooks in order.          *)
EXTENDS Filters, TraceLib
VARIABLES l, W, F, cfg, skip, sc

EmptyW == [nets |-> [n \in {} |-> 0], cl |-> [c \in {} |-> 0]]
Init == l = 1 /\ W = EmptyW /\ F = NoFilters /\ cfg = [n \in {} |-> 0] /\ skip = TRUE /\ sc = -1
Conf(e) == [n \in {e.nets[i].name : i \in 1..Len(e.nets)} |->
              LET x == e.nets[CHOOSE i \in 1..Len(e.nets) : e.nets[i].name = n]
              IN [report |-> e.report, offset |-> e.offset, autocmd |-> x.autocmd, join |-> x.join]]
Start(e) == [nets |-> [n \in {e.nets[i].name : i \in 1..Len(e.nets)} |->
                        [st |-> InitState("", "", ""), phase |-> "off", q |-> <<>>, order |-> <<>>]],
             cl |-> [c \in {} |-> 0]]
Filter(e) == [name |-> e.name, prio |-> e.prio, veto |-> Range(e.veto)]
Bare(r) == [w |-> r.w, out |-> r.out, offers |-> <<>>]
Result(e) ==
    CASE e.e = "srv" -> FilterFromServer(W, cfg, F, e.net, e.lines[1], e.now)
      [] e.e = "cli" -> IF Cmd(e.lines[1]) = "QUIT" THEN FilterDetach(W, F, e.c)
                        ELSE FilterFromClient(W, cfg, F, e.c, e.lines[1], e.now)
      [] e.e = "attach" -> FilterAttach(W, cfg, F, e.c, e.net, e.nick, e.user, e.host)
      [] e.e = "detach" -> FilterDetach(W, F, e.c)
      [] e.e = "lost" -> Bare(Lost(W, e.net))
      [] e.e = "conn" -> Bare(Connected(W, e.net, e.nick, e.user, e.host))
      [] OTHER -> [w |-> W, out |-> NoOut(W), offers |-> <<>>]

Got(e, p) == LET I == {i \in 1..Len(e.out) : e.out[i][1] = p} IN IF I = {} THEN <<>> ELSE e.out[CHOOSE i \in I : TRUE][2]
Map(G(_), q) == [i \in 1..Len(q) |-> G(q[i])]
Bareline(x) == NormReply(WithOrigin(x, ""))
SrvOk(e, r) == \A n \in DOMAIN r.w.nets : Map(NormReply, Got(e, n)) = Map(NormReply, r.out.srv[n])
CliOk(e, r) == \A c \in DOMAIN r.w.cl \ r.out.loose : Map(Plain, Got(e, c)) = Map(Plain, r.out.cl[c])
\* the recorded invocations, cut up by what was offered
Same_(a, o) ==
    /\ a.kind = o.kind /\ a.dir = o.dir /\ a.net = o.net
    /\ IF o.dir = "to" THEN Bareline(a.line) = Bareline(o.line) ELSE a.line = o.line
RECURSIVE RunLen(_, _, _)
RunLen(inv, o, k) ==
    IF k >= Len(inv) \/ ~Same_(inv[k + 1], o) \/ (k > 0 /\ ~inv[k].ok) \/ (\E i \in 1..k : inv[i].name = inv[k + 1].name) THEN k
    ELSE RunLen(inv, o, k + 1)
RECURSIVE InvOk(_, _)
InvOk(offers, inv) ==
    IF offers = <<>> THEN inv = <<>>
    ELSE LET o == Head(offers)
             fs == IF o.kind = "log" THEN F.log ELSE F.server
             k == RunLen(inv, o, 0)
         IN RunOk(fs, IF k = 0 THEN o.line ELSE inv[1].line, SubSeq(inv, 1, k)) /\ InvOk(Tail(offers), SubSeq(inv, k + 1, Len(inv)))
HooksOk(e, r) ==
    /\ e.asked = Get(r, "asked", <<>>)
    /\ e.lost = Get(r, "lost", <<>>)
    /\ Range(e.closed) = Get(r, "closed", {})
Ok(e, r) ==
    IF e.e = "srv" /\ e.again /\ W.nets[e.net].phase = "login" /\ Respcode(e.lines[1]) \in {376, 422} THEN CliOk(e, r)
    ELSE IF e.e \in {"srv", "cli", "attach", "detach"} THEN SrvOk(e, r) /\ CliOk(e, r) /\ InvOk(r.offers, e.inv) /\ HooksOk(e, r)
    ELSE TRUE
Step(e) ==
    IF e.e = "died" THEN Reject(sc, l, "died", e.op) /\ skip' = TRUE /\ UNCHANGED <<W, F>>
    ELSE IF e.e = "add" THEN F' = Add(F, e.kind, Filter(e)) /\ UNCHANGED <<W, skip>>
    ELSE IF e.e = "del" THEN F' = Del(F, e.kind, e.name) /\ UNCHANGED <<W, skip>>
    ELSE LET r == Result(e) IN
         /\ UNCHANGED F
         /\ IF Ok(e, r) THEN W' = r.w /\ UNCHANGED skip
            ELSE Reject(sc, l, "output", [srv |-> r.out.srv, cl |-> r.out.cl, offers |-> r.offers]) /\ skip' = TRUE /\ UNCHANGED W
Next ==
    /\ l <= TraceLen
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.e = "reset"
       THEN W' = Start(e) /\ cfg' = Conf(e) /\ F' = NoFilters /\ skip' = FALSE /\ sc' = e.sc
       ELSE /\ UNCHANGED <<sc, cfg>>
            /\ IF skip THEN UNCHANGED <<W, F, skip>> ELSE Step(e)
    /\ IF l = TraceLen THEN Done(l) ELSE TRUE
Spec == Init /\ [][Next]_<<l, W, F, cfg, skip, sc>>
=============================================================================
