------------------------------ MODULE History ------------------------------
(* The history kept for every network and the backlog clients are owed.       *)
(* H.log[n]  = [id, cm, st0, lines]: the history of this connection, begun in   *)
(*             state st0; id 0 when there is none; a line is [t, l]            *)
(* H.marks   = where a name stands for a position: [net, id, n, st]            *)
(* H.seen / H.lost / H.own: where the last client attached, where one was last *)
(*             lost, and where the user last said something: [id, n]           *)
EXTENDS Mux

Recorded == {"NICK", "JOIN", "QUIT", "PART", "PRIVMSG", "NOTICE", "KICK", "MODE", "TOPIC",
             "353", "366", "331", "332", "333", "324", "329"}
IsMessage(l) == Cmd(l) \in {"PRIVMSG", "NOTICE"}
Recordable(l) == Cmd(l) \in Recorded /\ ~(IsCtcp(l) /\ ~IsAction(l))

NoLog == [id |-> 0, cm |-> "", st0 |-> InitState("", "", ""), lines |-> <<>>]
Start0 == [id |-> 0, n |-> 0]
NoHistory(ns) == [next |-> 1, log |-> [n \in ns |-> NoLog], marks |-> [m \in {} |-> 0],
                  seen |-> [n \in ns |-> Start0], lost |-> [n \in ns |-> Start0], own |-> [n \in ns |-> Start0]]
Fresh(H, n, st) == [H EXCEPT !.next = @ + 1, !.log[n] = [id |-> H.next, cm |-> st.info.cm, st0 |-> st, lines |-> <<>>]]
Here(H, n) == [id |-> H.log[n].id, n |-> Len(H.log[n].lines)]
Put(H, n, t, l) == IF H.log[n].id # 0 /\ Recordable(l) THEN [H EXCEPT !.log[n].lines = Append(@, [t |-> t, l |-> l])] ELSE H
RECURSIVE PutSent(_, _, _, _, _)
PutSent(H, n, t, o, ls) ==
    IF ls = <<>> THEN H
    ELSE PutSent(IF IsMessage(Head(ls)) THEN Put(H, n, t, WithOrigin(Head(ls), o)) ELSE H, n, t, o, Tail(ls))

(* ---- what is recorded ---- *)
HistoryFromServer(W, cfg, H, n, l, now) ==
    LET r == FromServer(W, cfg, n, l, now)
        before == W.nets[n].phase
        after == r.w.nets[n].phase
        H1 == IF before = "login" /\ after = "up" THEN Fresh(H, n, r.w.nets[n].st) ELSE H
        H2 == PutSent(H1, n, now, Mask(r.w.nets[n].st.me), SelectSeq(r.out.srv[n], LAMBDA x : ~(IsMessage(x) /\ CtcpRequest(l))))
        redirected == Respcode(l) # 0 /\ Oldest(W.nets[n].q, Respcode(l)) # 0
    IN [w |-> r.w, out |-> r.out,
        h |-> IF after = "up" /\ ~redirected /\ Cmd(l) \notin {"PING", "PONG"} THEN Put(H2, n, now, l) ELSE H2]
Says(l) == IsMessage(l) /\ (~IsCtcp(l) \/ IsAction(l))
HistoryFromClient(W, cfg, H, c, l, now) ==
    LET n == W.cl[c].net
        o == Mask(W.cl[c].me)
        r == FromClient(W, cfg, c, l, now)
        H1 == IF Cmd(l) = "QUIT" /\ H.log[n].id # 0 THEN [H EXCEPT !.lost[n] = Here(H, n)] ELSE H
        H2 == IF r.out.srv[n] # <<>> /\ Says(l) THEN [H1 EXCEPT !.own[n] = Here(H, n)] ELSE H1
    IN [w |-> r.w, out |-> r.out, h |-> PutSent(H2, n, now, o, r.out.srv[n])]
HistoryConnected(W, H, n, nick, user, host) ==
    LET r == Connected(W, n, nick, user, host) IN [w |-> r.w, out |-> r.out, h |-> Fresh(H, n, r.w.nets[n].st)]
HistoryLost(W, H, n) == LET r == Lost(W, n) IN [w |-> r.w, out |-> r.out, h |-> [H EXCEPT !.log[n] = NoLog]]
HistoryDetach(W, H, c) ==
    LET n == W.cl[c].net
    IN [w |-> Detach(W, c), out |-> [NoOut(W) EXCEPT !.loose = {c}], h |-> IF H.log[n].id # 0 THEN [H EXCEPT !.lost[n] = Here(H, n)] ELSE H]

(* ---- reading it ---- *)
\* a position of an earlier connection stands for the start
Pos(H, n, m) == IF m.id = H.log[n].id THEN m.n ELSE 0
Between(H, n, from, to) == SubSeq(H.log[n].lines, from + 1, to)
Names2(cm, l, obj) == HasArg(l, 1) /\ (Same(cm, Arg(l, 1), obj) \/ \E i \in 1..Len(Split(Arg(l, 1), ",")) : Same(cm, Split(Arg(l, 1), ",")[i], obj))
About(H, n, lines, obj) == SelectSeq(lines, LAMBDA x : Names2(H.log[n].cm, x.l, obj))
RECURSIVE Replay(_, _)
Replay(st, lines) == IF lines = <<>> THEN st ELSE Replay(Apply(st, Head(lines).l, Head(lines).t), Tail(lines))
StateAt(H, n, pos) == Replay(H.log[n].st0, Between(H, n, 0, pos))
Mark(W, H, n, name) ==
    IF H.log[n].id = 0 THEN H
    ELSE [H EXCEPT !.marks = [m \in DOMAIN @ \cup {name} |-> IF m = name THEN [net |-> n, id |-> H.log[n].id, n |-> Len(H.log[n].lines), st |-> W.nets[n].st] ELSE @[m]]]

(* ---- the backlog ---- *)
\* the text of a message contains w
RECURSIVE HasText(_, _)
HasText(s, w) == IF Len(s) < Len(w) THEN FALSE ELSE StartsWith(s, w) \/ HasText(SubSeq(s, 2, Len(s)), w)
Highlights(l, words) == IsMessage(l) /\ HasArg(l, 2) /\ \E w \in words : HasText(Arg(l, 2), w)
Owed(H, n, policy, words) ==
    LET all == H.log[n].lines
        since(m) == Between(H, n, Pos(H, n, m), Len(all))
    IN CASE policy = "highlight" -> SelectSeq(since(H.seen[n]), LAMBDA x : Highlights(x.l, words))
         [] policy = "lastdisconnect" -> since(H.lost[n])
         [] policy = "simple" -> since(H.own[n])
         [] OTHER -> <<>>
Told(x, stamp, offset) == IF stamp /\ IsMessage(x.l) THEN Stamp(x.l, x.t + offset) ELSE x.l
Backlog(H, n, policy, words, stamp, offset) ==
    LET o == Owed(H, n, policy, words) IN [i \in 1..Len(o) |-> Told(o[i], stamp, offset)]
\* how the state a client is told first lies behind the lines that follow it
ToldFrom(H, n, policy) ==
    CASE policy = "lastdisconnect" -> StateAt(H, n, Pos(H, n, H.lost[n]))
      [] policy = "simple" -> StateAt(H, n, Pos(H, n, H.own[n]))
HistoryAttach(W, cfg, H, c, n, nick, user, host) ==
    LET r == Attach(W, cfg, c, n, nick, user, host)
    IN [w |-> r.w, out |-> r.out, h |-> IF H.log[n].id # 0 THEN [H EXCEPT !.seen[n] = Here(H, n)] ELSE H]
=============================================================================
