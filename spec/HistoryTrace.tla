--------------------------- MODULE HistoryTrace ---------------------------
(* Recorded histories: what was read back from the history kept (P07), and    *)
(* what clients were sent when they attached (P08).                            *)
EXTENDS History, TraceLib
VARIABLES l, W, H, cfg, conf, skip, sc

EmptyW == [nets |-> [n \in {} |-> 0], cl |-> [c \in {} |-> 0]]
Init == l = 1 /\ W = EmptyW /\ H = NoHistory({}) /\ cfg = [n \in {} |-> 0] /\ conf = 0 /\ skip = TRUE /\ sc = -1
Conf(e) == [n \in {e.nets[i].name : i \in 1..Len(e.nets)} |->
              LET x == e.nets[CHOOSE i \in 1..Len(e.nets) : e.nets[i].name = n]
              IN [report |-> e.report, offset |-> e.offset, autocmd |-> x.autocmd, join |-> x.join]]
Start(e) == [nets |-> [n \in {e.nets[i].name : i \in 1..Len(e.nets)} |->
                        [st |-> InitState("", "", ""), phase |-> "off", q |-> <<>>, order |-> <<>>]],
             cl |-> [c \in {} |-> 0]]
Got(e, p) == LET I == {i \in 1..Len(e.out) : e.out[i][1] = p} IN IF I = {} THEN <<>> ELSE e.out[CHOOSE i \in I : TRUE][2]
\* the identity of a client follows from all it is told while attaching
RECURSIVE Became(_, _, _, _)
Became(st, me, ls, now) == IF ls = <<>> THEN me ELSE Became(st, MeAfter(st, me, Head(ls), now), Tail(ls), now)
Told2(r, e) == [r EXCEPT !.w.cl[e.c].me = Became(W.nets[e.net].st, [nick |-> e.nick, user |-> e.user, host |-> e.host], Got(e, e.c), e.now)]
Bare(r) == [w |-> r.w, h |-> H]
Result(e) ==
    CASE e.e = "srv" -> HistoryFromServer(W, cfg, H, e.net, e.lines[1], e.now)
      [] e.e = "cli" -> HistoryFromClient(W, cfg, H, e.c, e.lines[1], e.now)
      [] e.e = "attach" -> Told2(HistoryAttach(W, cfg, H, e.c, e.net, e.nick, e.user, e.host), e)
      [] e.e = "detach" -> HistoryDetach(W, H, e.c)
      [] e.e = "lost" -> HistoryLost(W, H, e.net)
      [] e.e = "conn" -> HistoryConnected(W, H, e.net, e.nick, e.user, e.host)
      [] e.e = "mark" -> [w |-> W, h |-> Mark(W, H, e.net, e.name)]
      [] OTHER -> [w |-> W, h |-> H]

(* ---- P07 ---- *)
At(n, m, default) == IF m = "-" \/ m \notin DOMAIN H.marks THEN default ELSE IF H.marks[m].net # n THEN -1 ELSE Pos(H, n, H.marks[m])
Want(e) ==
    LET from == At(e.net, e.from, 0) to == At(e.net, e.to, Len(H.log[e.net].lines))
        b == IF from >= to THEN <<>> ELSE Between(H, e.net, from, to)
    IN IF e.obj = "" THEN b ELSE About(H, e.net, b, e.obj)
Read(q) == [i \in 1..Len(q) |-> [t |-> q[i][1], l |-> q[i][2]]]
\* how the nick of somebody else was spelled first does not matter
Spelled(cm, v) == [v EXCEPT !.chans = {[c EXCEPT !.nicks = {<<Fold(cm, x[1]), x[2]>> : x \in c.nicks}] : c \in v.chans}]
Like(a, b, cm) == a = b \/ Spelled(cm, a) = Spelled(cm, b)
WantState(e) ==
    IF e.mark = "-" THEN IF conf.pure THEN W.nets[e.net].st ELSE StateAt(H, e.net, Len(H.log[e.net].lines))
    ELSE LET m == H.marks[e.mark] IN
         IF m.id = H.log[e.net].id THEN IF conf.pure THEN m.st ELSE StateAt(H, e.net, m.n) ELSE H.log[e.net].st0

(* ---- P08 ---- *)
Greeting(x) == /\ (IsMessage(x) => x = <<"", "NOTICE", "AUTH", "PASS OK">>)
               /\ Cmd(x) \notin {"QUIT", "PART", "KICK", "TOPIC", "329"}
AttachOk(e) ==
    LET b == IF W.nets[e.net].phase = "off" THEN <<>> ELSE Backlog(H, e.net, conf.policy, conf.words, conf.stamp, cfg[e.net].offset)
        g == Got(e, e.c)
        k == Len(g) - Len(b)
        told == SubSeq(g, 1, k)
        joins == SelectSeq(told, LAMBDA x : Cmd(x) = "JOIN")
        st == IF conf.policy \in {"simple", "lastdisconnect"} /\ W.nets[e.net].phase # "off" THEN ToldFrom(H, e.net, conf.policy) ELSE W.nets[e.net].st
    IN IF k < 0 THEN FALSE
       ELSE /\ SubSeq(g, k + 1, Len(g)) = b
            /\ \A i \in 1..k : Greeting(told[i])
            /\ (W.nets[e.net].phase # "off" => Len(joins) = Len(st.chans))

Ok(e) ==
    CASE e.e = "trav" -> conf.chk = "P07" => IF H.log[e.net].id = 0 THEN e.none ELSE ~e.none /\ e.ok /\ Read(e.lines) = Want(e)
      [] e.e = "lstate" -> (conf.chk = "P07" /\ (e.mark # "-" => e.mark \in DOMAIN H.marks)) =>
                              IF H.log[e.net].id = 0 THEN e.none ELSE ~e.none /\ Like(RecView(e.st), View(WantState(e)), H.log[e.net].cm)
      [] e.e = "attach" -> conf.chk = "P08" => AttachOk(e)
      [] OTHER -> TRUE
Explain(e) ==
    CASE e.e = "trav" -> Want(e)
      [] e.e = "lstate" -> [diff |-> Diff(RecView(e.st), View(WantState(e))), want |-> View(WantState(e))]
      [] e.e = "attach" -> Backlog(H, e.net, conf.policy, conf.words, conf.stamp, cfg[e.net].offset)
      [] OTHER -> 0
Step(e) ==
    IF e.e = "died" THEN Reject(sc, l, "died", e.op) /\ skip' = TRUE /\ UNCHANGED <<W, H>>
    ELSE IF Ok(e) THEN LET r == Result(e) IN W' = r.w /\ H' = r.h /\ UNCHANGED skip
    ELSE Reject(sc, l, e.e, Explain(e)) /\ skip' = TRUE /\ UNCHANGED <<W, H>>
Next ==
    /\ l <= TraceLen
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.e = "reset"
       THEN /\ W' = Start(e) /\ H' = NoHistory(DOMAIN Conf(e)) /\ cfg' = Conf(e) /\ skip' = FALSE /\ sc' = e.sc
            /\ conf' = [chk |-> e.chk, pure |-> e.pure, policy |-> e.policy, words |-> Range(e.words), stamp |-> e.stamp]
       ELSE /\ UNCHANGED <<sc, cfg, conf>>
            /\ IF skip THEN UNCHANGED <<W, H, skip>> ELSE Step(e)
    /\ IF l = TraceLen THEN Done(l) ELSE TRUE
Spec == Init /\ [][Next]_<<l, W, H, cfg, conf, skip, sc>>
=============================================================================
