------------------------------- MODULE LogsMC -------------------------------
(* All short histories of a network with two channels and two other people.   *)
(* The ghost remembers, from the actions alone, who is where and who has been *)
(* talking to the user.                                                       *)
EXTENDS Logs, Json
CONSTANTS Depth, Gen
VARIABLES n, G, W, hist

Cfg == [file |-> "L/%N/%@", fmt |-> [k \in {"join", "part", "msg", "notice", "action", "mode", "quit", "kick", "topic", "notopic", "nickchange"} |-> "%n %@"]]
T0 == [h |-> "01", M |-> "46", s |-> "40", d |-> "09", B |-> "09", Y |-> "2001", e |-> "1000000000", b |-> "Sep"]
Chs == {"#a", "#b["}
Xs == {"x", "y^"}
Other == [c \in Chs \cup Xs \cup {"me"} |-> CASE c = "#a" -> "#A" [] c = "#b[" -> "#B{" [] c = "x" -> "X" [] c = "y^" -> "Y~" [] OTHER -> "Me"]
M(x) == G.as[x] \o "!u@h"
\* <<who sends: s(erver) or c(lient), line, kind, where it belongs by the meaning of the action>>
Shared(x) == {c \in Chs : x \in G.who[c]}
Own(x) == IF x = "me" \/ x \in G.talk THEN {G.as[x]} ELSE {}
Ops ==
    {<<"s", <<M("me"), "JOIN", c>>, "join", {c}>> : c \in {d \in Chs : "me" \notin G.who[d]}}
    \cup UNION {{<<"s", <<M(x), "JOIN", Other[c]>>, "join", {c}>> : c \in {d \in Chs : "me" \in G.who[d] /\ x \notin G.who[d]}} : x \in Xs}
    \cup UNION {{<<"s", <<M(x), "PART", Other[c], "bye">>, "part", {c}>> : c \in {d \in Chs : "me" \in G.who[d] /\ x \in G.who[d]}} : x \in Xs \cup {"me"}}
    \cup UNION {{<<"s", <<M("x"), "KICK", c, G.as[x]>>, "kick", {c}>> : c \in {d \in Chs : "me" \in G.who[d] /\ x \in G.who[d]}} : x \in {"y^", "me"}}
    \cup {<<"s", <<M(x), "QUIT", "gone">>, "quit", Shared(x) \cup Own(x)>> : x \in {z \in Xs : Shared(z) # {} \/ z \in G.talk}}
    \cup {<<"s", <<M(x), "NICK", IF G.as[x] = x THEN x \o "2" ELSE x>>, "nickchange", Shared(x) \cup Own(x)>> : x \in {z \in Xs : Shared(z) # {} \/ z \in G.talk} \cup {"me"}}
    \cup {<<"s", <<M("x"), "PRIVMSG", Other[c], "hi">>, "msg", {c}>> : c \in {d \in Chs : "me" \in G.who[d]}}
    \cup {<<"s", <<M(x), "PRIVMSG", G.as["me"], CTCPCH \o "ACTION waves" \o CTCPCH>>, "action", {G.as[x]}>> : x \in Xs}
    \cup {<<"s", <<M("y^"), "NOTICE", G.as["me"], "n">>, "notice", {G.as["y^"]}>>}
    \cup {<<"s", <<M("x"), "PRIVMSG", G.as["me"], CTCPCH \o "VERSION" \o CTCPCH>>, "", {}>>}
    \cup {<<"s", <<M("x"), "TOPIC", Other[c], "t">>, "topic", {c}>> : c \in {d \in Chs : "me" \in G.who[d]}}
    \cup {<<"s", <<M("x"), "MODE", Other[c], "+m">>, "mode", {c}>> : c \in {d \in Chs : "me" \in G.who[d]}}
    \cup {<<"c", <<"", "PRIVMSG", Other[c], "yo">>, "msg", {c}>> : c \in {d \in Chs : "me" \in G.who[d]}}
    \cup {<<"c", <<"", "PRIVMSG", IF KnowsNick(n, x) /\ G.as[x] = x THEN Other[x] ELSE G.as[x], "yo">>, "msg", {G.as[x]}>> : x \in Xs}
    \cup {<<"c", <<"", "NOTICE", "#a," \o G.as["x"], "yo">>, "notice", {"#a", G.as["x"]}>>}
    \cup {<<"c", <<"", "TOPIC", "#a", "t">>, "", {}>>}

Person(l) == CHOOSE x \in Xs \cup {"me"} : G.as[x] = OriginNick(l)
Chan(s) == CHOOSE c \in Chs : s \in {c, Other[c]}
Gone(g, x) == IF x = "me" THEN g ELSE g
Ghost(op) ==
    LET l == op[2] c == l[2] IN
    IF op[1] = "c" THEN G
    ELSE CASE c = "JOIN" -> [G EXCEPT !.who[Chan(l[3])] = @ \cup {Person(l)}]
           [] c = "PART" -> [G EXCEPT !.who[Chan(l[3])] = IF Person(l) = "me" THEN {} ELSE @ \ {Person(l)}]
           [] c = "KICK" -> LET v == CHOOSE x \in Xs \cup {"me"} : G.as[x] = l[4] IN [G EXCEPT !.who[Chan(l[3])] = IF v = "me" THEN {} ELSE @ \ {v}]
           [] c = "QUIT" -> [G EXCEPT !.who = [d \in Chs |-> @[d] \ {Person(l)}], !.talk = @ \ {Person(l)}]
           [] c = "NICK" -> [G EXCEPT !.as[Person(l)] = l[3]]
           [] c = "PRIVMSG" /\ l[3] = G.as["me"] -> [G EXCEPT !.talk = @ \cup {Person(l)}]
           [] OTHER -> G
Init == /\ n = LogUp(LogNet("netA", "irc.a"), "me", "u", "h")
        /\ G = [who |-> [c \in Chs |-> {}], talk |-> {}, as |-> [x \in Xs \cup {"me"} |-> x]]
        /\ W = <<>> /\ hist = <<>>
Next ==
    /\ Len(hist) < Depth
    /\ \E op \in Ops :
         LET l == IF op[1] = "c" THEN WithOrigin(op[2], Mask(n.st.me)) ELSE op[2] IN
         /\ W' = Written(Cfg, n, l, op[1] = "s", T0)
         /\ n' = IF op[1] = "s" THEN After1(n, l, 0) ELSE n
         /\ G' = Ghost(op)
         /\ hist' = Append(hist, op)
    /\ IF Gen THEN PrintT(ToJson([i \in 1..Len(hist') |-> <<hist'[i][1], hist'[i][2]>>])) ELSE TRUE
vars == <<n, G, W, hist>>
Spec == Init /\ [][Next]_vars
Vw == <<n, G, Len(hist)>>
Op == hist'[Len(hist')]
Low(s) == AsFile(s, 1, TRUE)
Files(S) == {"L/netA/" \o Low(x) : x \in S}
\* exactly the conversations the action belongs to, each of them once
Right == [][{W'[i][1] : i \in 1..Len(W')} = Files(Op[4])]_vars
Once == [][Len(W') = Cardinality(Op[4])]_vars
\* what is known of the people is what they did
Knows == \A c \in Chs : IF "me" \in G.who[c]
              THEN OnChan(n.st, c) /\ LET ch == n.st.chans[ChanIdx(n.st, c)] IN {ch.nicks[i].nick : i \in 1..Len(ch.nicks)} = {G.as[x] : x \in G.who[c]}
              ELSE ~OnChan(n.st, c)
Talks == {n.q[i] : i \in 1..Len(n.q)} = {G.as[x] : x \in G.talk}
=============================================================================
