--------------------------- MODULE ServicesTrace ---------------------------
(* Recorded histories of identifications: every event carries what went out   *)
(* and the passwords known afterwards.                                        *)
EXTENDS Services, TraceLib
VARIABLES l, W, S, cfg, skip, sc

EmptyW == [nets |-> [n \in {} |-> 0], cl |-> [c \in {} |-> 0]]
Init == l = 1 /\ W = EmptyW /\ S = [keys |-> <<>>, learn |-> TRUE] /\ cfg = [n \in {} |-> 0] /\ skip = TRUE /\ sc = -1
Conf(e) == [n \in {e.nets[i].name : i \in 1..Len(e.nets)} |->
              LET x == e.nets[CHOOSE i \in 1..Len(e.nets) : e.nets[i].name = n]
              IN [report |-> e.report, offset |-> e.offset, autocmd |-> x.autocmd, join |-> x.join]]
Start(e) == [nets |-> [n \in {e.nets[i].name : i \in 1..Len(e.nets)} |->
                        [st |-> InitState("", "", ""), phase |-> "off", q |-> <<>>, order |-> <<>>]],
             cl |-> [c \in {} |-> 0]]
Keys(q) == [i \in 1..Len(q) |-> [net |-> q[i][1], nick |-> q[i][2], pass |-> q[i][3]]]
Bare(r) == [w |-> r.w, out |-> r.out, s |-> S]
\* the proxy ended and was started again
Restarted == [W EXCEPT !.cl = [c \in {} |-> 0],
                       !.nets = [n \in DOMAIN @ |-> [@[n] EXCEPT !.phase = "off", !.q = <<>>, !.order = <<>>]]]
Result(e) ==
    CASE e.e = "srv" -> ServicesFromServer(W, cfg, S, e.net, e.lines[1], e.now)
      [] e.e = "cli" -> ServicesFromClient(W, cfg, S, e.c, e.lines[1], e.now)
      [] e.e = "attach" -> Bare(Attach(W, cfg, e.c, e.net, e.nick, e.user, e.host))
      [] e.e = "detach" -> [w |-> Detach(W, e.c), out |-> NoOut(W), s |-> S]
      [] e.e = "lost" -> Bare(Lost(W, e.net))
      [] e.e = "conn" -> Bare(Connected(W, e.net, e.nick, e.user, e.host))
      [] e.e = "restart" -> [w |-> Restarted, out |-> NoOut(Restarted), s |-> S]
      [] OTHER -> [w |-> W, out |-> NoOut(W), s |-> S]
Got(e, p) == LET I == {i \in 1..Len(e.out) : e.out[i][1] = p} IN IF I = {} THEN <<>> ELSE e.out[CHOOSE i \in I : TRUE][2]
\* what is rejoined after a lost connection is P10's business
Norm(e, q) == [i \in 1..Len(SelectSeq(q, LAMBDA x : ~(e.again /\ Cmd(x) = "JOIN"))) |->
                NormReply(SelectSeq(q, LAMBDA x : ~(e.again /\ Cmd(x) = "JOIN"))[i])]
SrvOk(e, r) == \A n \in DOMAIN r.w.nets : Norm(e, Got(e, n)) = Norm(e, r.out.srv[n])
Ok(e, r) ==
    /\ (e.e \in {"srv", "cli", "attach", "detach"} => SrvOk(e, r))
    /\ (Has(e, "keys") => Keys(e.keys) = r.s.keys)
Step(e) ==
    IF e.e = "died" THEN Reject(sc, l, "died", e.op) /\ skip' = TRUE /\ UNCHANGED <<W, S>>
    ELSE LET r == Result(e) IN
         IF Ok(e, r) THEN W' = r.w /\ S' = r.s /\ UNCHANGED skip
         ELSE Reject(sc, l, "output", [srv |-> r.out.srv, keys |-> r.s.keys]) /\ skip' = TRUE /\ UNCHANGED <<W, S>>
Next ==
    /\ l <= TraceLen
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.e = "reset"
       THEN W' = Start(e) /\ cfg' = Conf(e) /\ S' = [keys |-> Keys(e.keys), learn |-> e.learn] /\ skip' = FALSE /\ sc' = e.sc
       ELSE /\ UNCHANGED <<sc, cfg>>
            /\ IF skip THEN UNCHANGED <<W, S, skip>> ELSE Step(e)
    /\ IF l = TraceLen THEN Done(l) ELSE TRUE
Spec == Init /\ [][Next]_<<l, W, S, cfg, skip, sc>>
=============================================================================
