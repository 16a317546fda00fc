----------------------------- MODULE HistoryMC -----------------------------
(* One network, three clients that come and go, lines in both directions,      *)
(* lost connections.                                                           *)
EXTENDS History, Json
CONSTANTS Depth, Gen
VARIABLES W, H, hist, passed, sinceLost, sinceSeen, sinceOwn

S == "irc.A"
AL == "al!x@y"
cfg == [n \in {"A"} |-> [report |-> FALSE, offset |-> 0, autocmd |-> <<<<"", "PRIVMSG", "al", "auto">>>>, join |-> <<>>]]
words == {"word"}
FromSrv == {<<AL, "PRIVMSG", "#a", "a word">>, <<AL, "PRIVMSG", "me">>, <<AL, "JOIN", "#a">>, <<AL, "NICK", "bo">>,
            <<AL, "TOPIC", "#a", "t">>, <<S, "366", "me", "#z", "End">>, <<AL, "PRIVMSG", "me", "\tVERSION\t">>, <<AL, "NOTICE", "me", "\tACTION word\t">>}
FromCli == {<<"", "PRIVMSG", "#a", "my word">>, <<"", "PRIVMSG", "al", "\tPING 1\t">>, <<"", "NAMES", "#z">>, <<"", "QUIT">>}
Clients == {"c1", "c2", "c3"}
Alphabet ==
    {<<"srv", "A", l>> : l \in FromSrv}
    \cup {<<"cli", c, l>> : c \in {"c1", "c2"}, l \in FromCli}
    \cup {<<"attach", c, "A", "me", c>> : c \in Clients} \cup {<<"detach", c>> : c \in Clients}
    \cup {<<"lost", "A">>, <<"mark", "A">>}
Login(V, K, now) ==
    LET c == HistoryConnected(V, K, "A", "me", "user", "proxy.host")
        j == HistoryFromServer(c.w, cfg, c.h, "A", <<S, "376", "me", "End">>, now)
    IN HistoryFromServer(j.w, cfg, j.h, "A", <<"me!user@proxy.host", "JOIN", "#a">>, now)
W0 == [nets |-> [x \in {"A"} |-> [st |-> InitState("", "", ""), phase |-> "off", q |-> <<>>, order |-> <<>>]], cl |-> [c \in {} |-> 0]]
I == Login(W0, NoHistory({"A"}), 0)
Zero == <<>>
Init == W = I.w /\ H = I.h /\ hist = <<>> /\ passed = <<"PRIVMSG", "JOIN">> /\ sinceLost = passed /\ sinceSeen = passed /\ sinceOwn = passed
Attached(V, c) == c \in DOMAIN V.cl /\ V.cl[c].net # NONE
Enabled(op) ==
    CASE op[1] = "attach" -> op[2] \notin DOMAIN W.cl
      [] op[1] \in {"detach", "cli"} -> Attached(W, op[2])
      [] OTHER -> TRUE
now == Len(hist) * 60
Run(op) ==
    CASE op[1] = "srv" -> HistoryFromServer(W, cfg, H, op[2], op[3], now)
      [] op[1] = "cli" -> HistoryFromClient(W, cfg, H, op[2], op[3], now)
      [] op[1] = "attach" -> HistoryAttach(W, cfg, H, op[2], op[3], op[4], op[5], "localhost")
      [] op[1] = "detach" -> HistoryDetach(W, H, op[2])
      [] op[1] = "mark" -> [w |-> W, h |-> Mark(W, H, "A", "m")]
      [] OTHER -> LET x == HistoryLost(W, H, "A") IN Login(x.w, x.h, now)
(* ---- what went by, said without the machinery above ---- *)
Quiet(l) == Len(l) > 3 /\ StartsWith(l[4], "\t") /\ ~StartsWith(l[4], "\tACTION")
Answer(op) == op[3][2] = "366" /\ \E i \in 1..Len(W.nets["A"].q) : W.nets["A"].q[i].cmd = "NAMES"
Adds(op) ==
    CASE op[1] = "srv" -> IF ~Quiet(op[3]) /\ ~Answer(op) THEN <<op[3][2]>> ELSE <<>>
      [] op[1] = "cli" -> IF op[3][2] = "PRIVMSG" /\ ~Quiet(op[3]) THEN <<"own">> ELSE <<>>
      [] OTHER -> <<>>
Gone(op) == op[1] = "detach" \/ (op[1] = "cli" /\ op[3][2] = "QUIT")
Again == <<"PRIVMSG", "JOIN">>
Next ==
    /\ Len(hist) < Depth
    /\ \E op \in Alphabet :
        /\ Enabled(op)
        /\ W' = Run(op).w /\ H' = Run(op).h
        /\ passed' = IF op[1] = "lost" THEN Again ELSE passed \o Adds(op)
        /\ sinceLost' = IF op[1] = "lost" THEN Again ELSE IF Gone(op) THEN <<>> ELSE sinceLost \o Adds(op)
        /\ sinceSeen' = IF op[1] = "lost" THEN Again ELSE IF op[1] = "attach" THEN <<>> ELSE sinceSeen \o Adds(op)
        /\ sinceOwn' = IF op[1] = "lost" THEN Again ELSE IF Adds(op) = <<"own">> THEN <<"own">> ELSE sinceOwn \o Adds(op)
        /\ hist' = Append(hist, op)
        /\ IF Gen THEN PrintT(ToJson(hist')) ELSE TRUE
vars == <<W, H, hist, passed, sinceLost, sinceSeen, sinceOwn>>
Spec == Init /\ [][Next]_vars
Vw == <<W, H>>

Kinds(q) == [i \in 1..Len(q) |-> IF IsMessage(q[i].l) /\ StartsWith(q[i].l[1], "me!c") THEN "own" ELSE q[i].l[2]]
Lines == H.log["A"].lines
\* once each, in order, and nothing else
Complete == Kinds(Lines) = passed
Timed == \A i \in 1..Len(Lines) - 1 : Lines[i].t <= Lines[i + 1].t
\* everything here that changes the state is recorded
Consistent == StateAt(H, "A", Len(Lines)) = W.nets["A"].st
MarksOk == "m" \in DOMAIN H.marks /\ H.marks["m"].id = H.log["A"].id => StateAt(H, "A", H.marks["m"].n) = H.marks["m"].st
BacklogOk ==
    /\ Kinds(Owed(H, "A", "lastdisconnect", words)) = sinceLost
    /\ Kinds(Owed(H, "A", "simple", words)) = sinceOwn
    /\ Owed(H, "A", "none", words) = <<>>
    /\ LET o == Owed(H, "A", "highlight", words) IN
       /\ \A i \in 1..Len(o) : Cmd(o[i].l) \in {"PRIVMSG", "NOTICE"}
       /\ Len(o) = Len(SelectSeq(SubSeq(Lines, Len(Lines) - Len(sinceSeen) + 1, Len(Lines)), LAMBDA x : Len(x.l) > 3 /\ x.l[4] \in {"a word", "my word", "\tACTION word\t"}))
\* the state a client is told first and the lines that follow it add up
AddsUp == \A p \in {"lastdisconnect", "simple"} : Replay(ToldFrom(H, "A", p), Owed(H, "A", p, words)) = W.nets["A"].st
=============================================================================
