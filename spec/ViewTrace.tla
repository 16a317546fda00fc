----------------------------- MODULE ViewTrace -----------------------------
(* Recorded histories: what each client was told, applied as a client would,  *)
(* has to add up to the state that follows from what the server said.         *)
EXTENDS View, TraceLib
VARIABLES l, W, cfg, V, stale, skip, sc, rep

None == [c \in {} |-> 0]
EmptyW == [nets |-> [n \in {} |-> 0], cl |-> None]
Init == l = 1 /\ W = EmptyW /\ cfg = [n \in {} |-> 0] /\ V = None /\ stale = None /\ skip = TRUE /\ sc = -1 /\ rep = FALSE
Conf(e) == [n \in {e.nets[i].name : i \in 1..Len(e.nets)} |->
              LET x == e.nets[CHOOSE i \in 1..Len(e.nets) : e.nets[i].name = n]
              IN [report |-> e.report, offset |-> e.offset, autocmd |-> x.autocmd, join |-> x.join]]
Start(e) == [nets |-> [n \in {e.nets[i].name : i \in 1..Len(e.nets)} |->
                        [st |-> Blank, phase |-> "off", q |-> <<>>, order |-> <<>>]], cl |-> None]
RECURSIVE Feed(_, _, _, _)
Feed(X, e, ls, kind) ==
    IF ls = <<>> \/ (kind = "cli" /\ X.cl[e.c].net = NONE) THEN X
    ELSE Feed(IF kind = "srv" THEN FromServer(X, cfg, e.net, Head(ls), e.now).w ELSE FromClient(X, cfg, e.c, Head(ls), e.now).w, e, Tail(ls), kind)
After_(e) ==
    CASE e.e \in {"srv", "cli"} -> Feed(W, e, e.lines, e.e)
      [] e.e = "attach" -> Attach(W, cfg, e.c, e.net, e.nick, e.user, e.host).w
      [] e.e = "detach" -> Detach(W, e.c)
      [] e.e = "lost" -> Lost(W, e.net).w
      [] e.e = "conn" -> Connected(W, e.net, e.nick, e.user, e.host).w
      [] OTHER -> W
Got(e, p) == LET I == {i \in 1..Len(e.out) : e.out[i][1] = p} IN IF I = {} THEN <<>> ELSE e.out[CHOOSE i \in I : TRUE][2]

ViewAfter(e, W2) == [c \in DOMAIN W2.cl |-> LearnAll(IF c \in DOMAIN V THEN V[c] ELSE Blank, IF c \in DOMAIN stale THEN stale[c] ELSE {}, Got(e, c), e.now)]
StaleAfter(e, W2, L) == [c \in DOMAIN W2.cl |-> IF e.e = "lost" /\ c \in DOMAIN W.cl /\ W.cl[c].net = e.net THEN Names(L[c].v) ELSE L[c].stale]
Ok(e, c, W2, V2, S2) ==
    IF W2.cl[c].net = NONE THEN TRUE
    ELSE LET n == W2.nets[W2.cl[c].net] IN
         IF n.phase = "up"
         THEN IF e.e = "attach" /\ e.c = c THEN Exact(n.st, V2[c], rep) ELSE Coherent(n.st, V2[c], S2[c])
         ELSE e.e = "lost" => Alone(V2[c])
Brief(v) == [nick |-> v.me.nick, umodes |-> v.umodes, chans |-> [i \in 1..Len(v.chans) |-> [name |-> v.chans[i].name, topic |-> v.chans[i].topic, nicks |-> v.chans[i].nicks]]]
Step(e) ==
    IF e.e = "died" THEN Reject(sc, l, "died", e.op) /\ skip' = TRUE /\ UNCHANGED <<W, V, stale>>
    ELSE LET W2 == After_(e) L == ViewAfter(e, W2) V2 == [c \in DOMAIN L |-> L[c].v] S2 == StaleAfter(e, W2, L)
             bad == {c \in DOMAIN W2.cl : ~Ok(e, c, W2, V2, S2)}
         IN IF bad = {} THEN W' = W2 /\ V' = V2 /\ stale' = S2 /\ UNCHANGED skip
            ELSE LET c == CHOOSE x \in bad : TRUE IN
                 Reject(sc, l, "view", [client |-> c, told |-> Brief(V2[c]), is |-> Brief(W2.nets[W2.cl[c].net].st), phase |-> W2.nets[W2.cl[c].net].phase])
                 /\ skip' = TRUE /\ UNCHANGED <<W, V, stale>>
Next ==
    /\ l <= TraceLen
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.e = "reset"
       THEN W' = Start(e) /\ cfg' = Conf(e) /\ V' = None /\ stale' = None /\ skip' = FALSE /\ sc' = e.sc /\ rep' = e.replayed
       ELSE /\ UNCHANGED <<sc, cfg, rep>>
            /\ IF skip THEN UNCHANGED <<W, V, stale, skip>> ELSE Step(e)
    /\ IF l = TraceLen THEN Done(l) ELSE TRUE
Spec == Init /\ [][Next]_<<l, W, cfg, V, stale, skip, sc, rep>>
=============================================================================
