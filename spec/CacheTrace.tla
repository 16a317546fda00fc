---------------------------- MODULE CacheTrace ----------------------------
(* Recorded histories with questions that the proxy may answer itself (P11).  *)
EXTENDS Cache, TraceLib
VARIABLES l, W, K, cfg, conf, skip, sc

EmptyW == [nets |-> [n \in {} |-> 0], cl |-> [c \in {} |-> 0]]
Init == l = 1 /\ W = EmptyW /\ K = [n \in {} |-> 0] /\ cfg = [n \in {} |-> 0] /\ conf = 0 /\ skip = TRUE /\ sc = -1
Conf(e) == [n \in {e.nets[i].name : i \in 1..Len(e.nets)} |->
              LET x == e.nets[CHOOSE i \in 1..Len(e.nets) : e.nets[i].name = n]
              IN [report |-> e.report, offset |-> e.offset, autocmd |-> x.autocmd, join |-> x.join]]
Start(e) == [nets |-> [n \in {e.nets[i].name : i \in 1..Len(e.nets)} |->
                        [st |-> InitState("", "", ""), phase |-> "off", q |-> <<>>, order |-> <<>>]],
             cl |-> [c \in {} |-> 0]]
Got(e, p) == LET I == {i \in 1..Len(e.out) : e.out[i][1] = p} IN IF I = {} THEN <<>> ELSE e.out[CHOOSE i \in I : TRUE][2]
RECURSIVE Feed(_, _, _, _)
Feed(V, k, e, ls) ==
    IF ls = <<>> THEN [w |-> V, k |-> k]
    ELSE LET r == FromServer(V, cfg, e.net, Head(ls), e.now)
         IN Feed(r.w, Remember(k, V.nets[e.net].st, r.w.nets[e.net].st, Head(ls), e.now), e, Tail(ls))
Keep(w) == [w |-> w, k |-> K]
Silent(e) == \A i \in 1..Len(e.out) : e.out[i][1] = e.c
Ask1(e) == e.e = "cli" /\ Cmd(e.lines[1]) \in {"NAMES", "TOPIC", "MODE", "WHO"} /\ W.nets[W.cl[e.c].net].phase = "up"
Forwarded(e) == Got(e, W.cl[e.c].net) # <<>>
Result(e) ==
    CASE e.e = "srv" -> LET r == Feed(W, K[e.net], e, e.lines) IN [w |-> r.w, k |-> [K EXCEPT ![e.net] = r.k]]
      [] e.e = "cli" -> IF Ask1(e) /\ ~Forwarded(e) THEN Keep(W) ELSE Keep(FromClient(W, cfg, e.c, e.lines[1], e.now).w)
      [] e.e = "attach" -> Keep(Attach(W, cfg, e.c, e.net, e.nick, e.user, e.host).w)
      [] e.e = "detach" -> Keep(Detach(W, e.c))
      [] e.e = "lost" -> [w |-> Lost(W, e.net).w, k |-> [K EXCEPT ![e.net] = NoKnowledge]]
      [] e.e = "conn" -> [w |-> Connected(W, e.net, e.nick, e.user, e.host).w, k |-> [K EXCEPT ![e.net] = NoKnowledge]]
      [] OTHER -> Keep(W)
Ok(e) ==
    IF ~Ask1(e) THEN TRUE
    ELSE LET n == W.cl[e.c].net st == W.nets[n].st IN
         IF Forwarded(e)
         THEN e.out = <<<<n, <<WithOrigin(e.lines[1], "")>>>>>>
         ELSE /\ Silent(e) /\ e.longest <= 510
              /\ Known(st, K[n], e.lines[1], e.now, conf.age)
              /\ AnswerOk(st, K[n], e.lines[1], Got(e, e.c), n, W.cl[e.c].me.nick)
Explain(e) ==
    LET n == W.cl[e.c].net st == W.nets[n].st IN
    [known |-> Known(st, K[n], e.lines[1], e.now, conf.age), me |-> W.cl[e.c].me.nick, state |-> IF Question(st, e.lines[1]) = "none" THEN 0 ELSE Asked(st, e.lines[1]), k |-> K[n]]
Step(e) ==
    IF e.e = "died" THEN Reject(sc, l, "died", e.op) /\ skip' = TRUE /\ UNCHANGED <<W, K>>
    ELSE IF Ok(e) THEN LET r == Result(e) IN W' = r.w /\ K' = r.k /\ UNCHANGED skip
    ELSE Reject(sc, l, "answer", Explain(e)) /\ skip' = TRUE /\ UNCHANGED <<W, K>>
Next ==
    /\ l <= TraceLen
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.e = "reset"
       THEN /\ W' = Start(e) /\ K' = [n \in DOMAIN Conf(e) |-> NoKnowledge] /\ cfg' = Conf(e) /\ conf' = [age |-> e.age] /\ skip' = FALSE /\ sc' = e.sc
       ELSE /\ UNCHANGED <<sc, cfg, conf>>
            /\ IF skip THEN UNCHANGED <<W, K, skip>> ELSE Step(e)
    /\ IF l = TraceLen THEN Done(l) ELSE TRUE
Spec == Init /\ [][Next]_<<l, W, K, cfg, conf, skip, sc>>
=============================================================================
