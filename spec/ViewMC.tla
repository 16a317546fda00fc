------------------------------- MODULE ViewMC -------------------------------
(* A channel, another user, clients coming and going, the connection lost and *)
(* made again: what brings a client up to date keeps its view coherent.       *)
EXTENDS View, Json
CONSTANTS Depth, Gen
VARIABLES st, up, V, hist

S == "irc.A"
ME == "me!user@proxy.host"
AL == "al!x@y"
Lines ==
  { <<ME, "JOIN", "#a">>, <<ME, "JOIN", "#b">>, <<ME, "PART", "#a">>, <<AL, "KICK", "#a", "me", "out">>, <<ME, "NICK", "you">>, <<"you!user@proxy.host", "NICK", "me">>,
    <<AL, "JOIN", "#a">>, <<AL, "PART", "#A">>, <<AL, "QUIT", "q">>, <<AL, "NICK", "bo">>, <<"bo!x@y", "NICK", "al">>, <<AL, "TOPIC", "#a", "one">>, <<AL, "TOPIC", "#a", "">>,
    <<S, "MODE", "#a", "+o", "al">>, <<S, "MODE", "#a", "+v-o", "al", "al">>, <<S, "332", "me", "#a", "two">>, <<S, "333", "me", "#a", "al", "77">>, <<S, "331", "me", "#a", "No">>,
    <<"me", "MODE", "me", "+i">>, <<S, "221", "me", "+w">> }
Clients == {"c1", "c2"}
Told(v, s, ls) == LearnAll(v, s, ls, 0)
NoView == [v |-> Blank, s |-> {}]
Me0 == InitState("me", "user", "proxy.host")
Start == <<<<ME, "JOIN", "#a">>, <<AL, "JOIN", "#a">>>>
Init == st = Apply(Apply(Me0, Start[1], 0), Start[2], 0) /\ up = TRUE /\ V = [c \in {} |-> NoView] /\ hist = [i \in 1..2 |-> <<"srv", "A", Start[i]>>]
\* a server is consistent: it speaks of the user by the nick in use, and nobody takes a nick in use
Sane(l) ==
    /\ (l[1] # "" /\ Before(l[1], "!") \in {"me", "you"} => Before(l[1], "!") = st.me.nick)
    /\ (Respcode(l) # 0 \/ Cmd(l) \in {"MODE", "KICK"} => \A i \in 1..2 : (HasArg(l, i) /\ Arg(l, i) \in {"me", "you"}) => Arg(l, i) = st.me.nick)
    /\ (Cmd(l) = "NICK" => Before(l[1], "!") = st.me.nick \/ ~\E i \in 1..Len(st.chans) : NickIdx(st, st.chans[i], Arg(l, 1)) # 0)
    /\ (Cmd(l) = "JOIN" /\ OnChan(st, Arg(l, 1)) => NickIdx(st, st.chans[ChanIdx(st, Arg(l, 1))], OriginNick(l)) = 0)
Srv(l) ==
    /\ up /\ Sane(l)
    /\ st' = Apply(st, l, 0)
    /\ V' = [c \in DOMAIN V |-> LET t == Told(V[c].v, V[c].s, <<l>>) IN [v |-> t.v, s |-> t.stale]]
    /\ UNCHANGED up
    /\ hist' = Append(hist, <<"srv", "A", l>>)
Come(c) ==
    /\ c \notin DOMAIN V
    /\ LET t == Told(Blank, {}, Greeting("me") \o (IF up THEN Snapshot(st, [nick |-> "me", user |-> c, host |-> "localhost"]) ELSE <<>>))
       IN V' = [x \in DOMAIN V \cup {c} |-> IF x = c THEN [v |-> t.v, s |-> t.stale] ELSE V[x]]
    /\ UNCHANGED <<st, up>>
    /\ hist' = Append(hist, <<"attach", c, "A", st.me.nick, c>>)
Go(c) ==
    /\ c \in DOMAIN V
    /\ V' = [x \in DOMAIN V \ {c} |-> V[x]]
    /\ UNCHANGED <<st, up>>
    /\ hist' = Append(hist, <<"detach", c>>)
Lose ==
    /\ up
    /\ up' = FALSE /\ UNCHANGED st
    /\ V' = [c \in DOMAIN V |-> LET t == Told(V[c].v, V[c].s, Netsplit(V[c].v)) IN [v |-> t.v, s |-> Names(t.v)]]
    /\ hist' = Append(hist, <<"lost", "A">>)
Again ==
    /\ ~up
    /\ up' = TRUE /\ st' = Me0
    /\ V' = [c \in DOMAIN V |-> LET n == V[c].v.me.nick
                                    t == Told(V[c].v, V[c].s, IF n # "me" THEN <<<<n \o "!" \o c \o "@localhost", "NICK", "me">>>> ELSE <<>>) IN [v |-> t.v, s |-> t.stale]]
    /\ hist' = Append(hist, <<"again", "A">>)
Next ==
    /\ Len(hist) < Depth
    /\ (\E l \in Lines : Srv(l)) \/ (\E c \in Clients : Come(c) \/ Go(c)) \/ Lose \/ Again
    /\ IF Gen THEN PrintT(ToJson(hist')) ELSE TRUE
vars == <<st, up, V, hist>>
Spec == Init /\ [][Next]_vars
Vw == <<st, up, V>>
Fine == \A c \in DOMAIN V : IF up THEN Coherent(st, V[c].v, V[c].s) ELSE Alone(V[c].v)
\* a client that attaches knows what the ones already there know
Arrive == [][\A c \in DOMAIN V' \ DOMAIN V : up => Exact(st', V'[c].v, FALSE)]_vars
=============================================================================
