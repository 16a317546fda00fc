------------------------------- MODULE GateMC -------------------------------
(* Two connections and every short sequence of lines (or SOCKS5 messages)     *)
(* they can send: nothing crosses before the password, one welcome.           *)
EXTENDS Gate, Json
CONSTANTS Depth, Gen, Which
VARIABLES W, G, seen, hist

cfg == [n \in {"netA", "netB"} |-> [report |-> FALSE, offset |-> 0, autocmd |-> <<>>, join |-> <<>>]]
H == [n \in {"netA", "netB"} |-> [host |-> "irc." \o n, port |-> IF n = "netA" THEN 6000 ELSE 6001]]
L == [p \in {"5000", "5002", "5003"} |->
       IF p = "5000" THEN [pw |-> "pw", users |-> {}, net |-> "netA"]
       ELSE IF p = "5002" THEN [pw |-> "pw", users |-> {}, net |-> NONE]
       ELSE [pw |-> NONE, users |-> {<<"al", "secret">>}, net |-> NONE]]
ToBytes(s) == [i \in 1..Len(s) |-> CHOOSE b \in 0..255 : ByteText[b] = Ch(s, i)]
Lines == CASE Which = "P01" -> {"PASS pw", "PASS bad", "PASS pw:netB", "PASS pw:nope", "PASS bad:netB", "PASS", "NICK you", "USER u a b c", "PRIVMSG #a x", "CONNECT netB"}
           [] OTHER -> {"PASS pw", "NICK you", "NICK me", "NICK", "USER u a b c", "USER u a b", "JOIN #a", "PRIVMSG #a x", "PASS bad", "CONNECT netB", "CONNECT nope", "QUIT"}
Packets == {<<5, 1, 2>>, <<5, 2, 0, 2>>, <<5, 1, 0>>, <<1, 2>> \o ToBytes("al") \o <<6>> \o ToBytes("secret"), <<1, 2>> \o ToBytes("al") \o <<3>> \o ToBytes("bad"),
            <<1, 2>> \o ToBytes("zz") \o <<6>> \o ToBytes("secret"), <<5, 1, 0, 3, 4>> \o ToBytes("netB") \o <<0, 9>>, <<5, 1, 0, 3, 4>> \o ToBytes("nope") \o <<0, 9>>,
            <<5, 2, 0, 3, 4>> \o ToBytes("netB") \o <<0, 9>>, ToBytes("NICK you") \o <<10>>, ToBytes("USER u a b c") \o <<10>>, ToBytes("PASS al:secret") \o <<10>>}
Msgs == IF Which = "SOCKS" THEN Packets ELSE {ToBytes(x) \o <<13, 10>> : x \in Lines}
Ports == IF Which = "SOCKS" THEN {"5003"} ELSE IF Which = "P01" THEN {"5000", "5002"} ELSE {"5000", "5002"}
Conns == {"k1", "k2"}
UpNet == [st |-> InitState("me", "user", "proxy.host"), phase |-> "up", q |-> <<>>, order |-> <<>>]
Nil == [x \in {} |-> 0]
Init == W = [nets |-> [n \in {"netA", "netB"} |-> UpNet], cl |-> Nil] /\ G = Nil /\ hist = <<>>
        /\ seen = [pw |-> {}, nick |-> {}, user |-> {}, wel |-> [c \in Conns |-> 0], leak |-> {}]

\* what a connection has shown of itself, told independently of the gate
Line1(bs) == ReadLine(Cut(bs))
Shows(c, bs) ==
    LET l == Line1(bs) k == G[c].kind IN
    [pw |-> IF k \in {"new", "lines"} /\ Cmd(l) = "PASS" /\ HasArg(l, 1) /\ Before(Arg(l, 1), ":") = "pw" /\ L[G[c].port].pw = "pw" THEN {c}
            ELSE IF k = "auth" /\ bs = <<1, 2>> \o ToBytes("al") \o <<6>> \o ToBytes("secret") THEN {c} ELSE {},
     nick |-> IF k = "open" /\ Cmd(l) = "NICK" /\ HasArg(l, 1) THEN {c} ELSE {},
     user |-> IF k = "open" /\ Cmd(l) = "USER" /\ HasArg(l, 4) THEN {c} ELSE {}]
Open(c, p) ==
    /\ c \notin DOMAIN G
    /\ (c = "k2" => "k1" \in DOMAIN G)
    /\ G' = [x \in DOMAIN G \cup {c} |-> IF x = c THEN Fresh(p) ELSE G[x]]
    /\ hist' = Append(hist, <<"open", c, p>>) /\ UNCHANGED <<W, seen>>
Send(c, bs) ==
    /\ c \in DOMAIN G /\ G[c].kind # "gone"
    /\ LET r == Receive(W, G, L, H, cfg, c, bs, 0)
           s == Shows(c, bs)
           wel == Len(SelectSeq(r.items, LAMBDA x : x[1] = "welcome"))
       IN /\ W' = r.w /\ G' = r.g
          /\ seen' = [pw |-> seen.pw \cup s.pw, nick |-> seen.nick \cup s.nick, user |-> seen.user \cup s.user,
                      wel |-> [seen.wel EXCEPT ![c] = @ + wel],
                      \* lines that reached a server, or another client
                      leak |-> seen.leak \cup (IF (\E n \in DOMAIN r.out.srv : r.out.srv[n] # <<>>) \/ (\E x \in DOMAIN r.out.cl : r.out.cl[x] # <<>>) THEN {c} ELSE {})]
    /\ hist' = Append(hist, <<"data", c, bs>>)
Talk(n) ==
    /\ \E c \in DOMAIN G : G[c].kind # "gone"
    /\ LET l == <<"al!x@y", "PRIVMSG", "#a", "hi">>
           r == FromServer(W, cfg, n, l, 0)
       IN W' = r.w /\ hist' = Append(hist, <<"srv", n, l>>)
          /\ seen' = [seen EXCEPT !.leak = @ \cup {x \in DOMAIN r.out.cl : r.out.cl[x] # <<>>}]
    /\ UNCHANGED G
Next ==
    /\ Len(hist) < Depth
    /\ (\E c \in Conns : (\E p \in Ports : Open(c, p)) \/ (\E b \in Msgs : Send(c, b))) \/ (\E n \in {"netA", "netB"} : Talk(n))
    /\ IF Gen THEN PrintT(ToJson(hist')) ELSE TRUE
Spec == Init /\ [][Next]_<<W, G, seen, hist>>
Vw == <<W, G, seen>>

\* the way in leads past the password
Gated == \A c \in DOMAIN G : G[c].kind \in {"req", "open", "in"} => c \in seen.pw
\* registered: nick and user given; one welcome each
Registered == \A c \in DOMAIN G : (G[c].kind = "in" => c \in seen.nick \cap seen.user) /\ (seen.wel[c] = 1 => c \in seen.nick \cap seen.user) /\ seen.wel[c] <= 1
              /\ (G[c].kind = "in" <=> c \in DOMAIN W.cl /\ W.cl[c].net # NONE)
Prompt == \A c \in DOMAIN G : G[c].kind = "open" => ~(c \in seen.nick /\ c \in seen.user)
\* nothing crosses before that
Sealed == seen.leak \subseteq seen.pw \cap seen.nick \cap seen.user
=============================================================================
