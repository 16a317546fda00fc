-------------------------------- MODULE Gate --------------------------------
(* From an accepted connection to a registered client: the listener password, *)
(* SOCKS5, the choice of a network, NICK and USER.                            *)
(* G[c] = [kind, buf, port, net, nick, user]; kind is                         *)
(*   "new"    nothing received yet      "lines"  speaks IRC, no password yet  *)
(*   "meth", "auth", "req"  the steps of SOCKS5                               *)
(*   "open"   password accepted, not registered                               *)
(*   "in"     registered (the rest is in Mux)     "gone"                      *)
EXTENDS Mux, Wire

\* H[n] = [host, port], the server of network n; host is NONE for a network that is made up when somebody asks for it
\* L[port] = [pw, users (set of <<name, password>>), net]; NONE where there is none
Fresh(port) == [kind |-> "new", buf |-> <<>>, port |-> port, net |-> NONE, nick |-> NONE, user |-> NONE]
AcceptsPw(L, port, user, pw) ==
    IF user # NONE /\ <<user, pw>> \in L[port].users THEN TRUE
    ELSE IF L[port].pw # NONE THEN pw = L[port].pw
    ELSE L[port].users = {}
\* the network a name stands for: its own name, or one of its servers
Resolve(H, name, port) ==
    LET M == {n \in DOMAIN H : Fold("ascii", n) = Fold("ascii", name) \/ (Fold("ascii", H[n].host) = Fold("ascii", name) /\ H[n].port = port)}
        R == {n \in M : H[n].host # NONE}
    IN IF M = {} THEN NONE ELSE IF R # {} THEN CHOOSE n \in R : TRUE ELSE CHOOSE n \in M : TRUE

(* items a connection is sent: <<"bytes", b>>  <<"cmd", command>>  <<"maybe", command>>  <<"granted">>  <<"welcome", nick, nick in use if it is another>>  <<"line", l>>
   <<"offline">> (at most a remark that there is no connection)  <<"admin">> (whatever the administration answers) *)
Res(W, G, items) == [w |-> W, g |-> G, items |-> items, out |-> NoOut(W)]
Bytes(b) == <<<<"bytes", b>>>>
Says(x) == <<<<"cmd", x>>>>
Gone(G, c) == [G EXCEPT ![c].kind = "gone", ![c].buf = <<>>]
SocksError(code) == Bytes(<<5, code, 0, 3, 0, 0, 0>>)

\* a line of a connection that has not given the password yet
KnockLine(W, G, L, H, c, l) ==
    IF l = NoLine THEN Res(W, G, <<>>)
    ELSE IF Cmd(l) = "" THEN Res(W, G, <<<<"maybe", "451">>>>)
    ELSE IF Cmd(l) # "PASS" THEN Res(W, G, Says("451"))
    ELSE IF ~HasArg(l, 1) THEN Res(W, G, Says("461"))
    ELSE LET a == Arg(l, 1)
             pw == Before(a, ":")
             named == Contains(a, ":")
             n == IF named THEN Resolve(H, After(a, ":"), 6667) ELSE L[G[c].port].net
         IN IF ~AcceptsPw(L, G[c].port, NONE, pw) THEN Res(W, G, Says("464"))
            ELSE IF named /\ n = NONE THEN Res(W, Gone(G, c), Says("464"))
            ELSE Res(W, [G EXCEPT ![c].kind = "open", ![c].net = n], Says("NOTICE"))

\* a line of a connection that gave the password but is not registered
Register(W, G, cfg, c) ==
    LET g == G[c] IN
    IF g.net = NONE THEN Res(W, Gone(G, c), Says("ERROR"))
    ELSE LET r == Attach(W, cfg, c, g.net, g.nick, g.user, "localhost")
             st == W.nets[g.net].st
             ph == W.nets[g.net].phase
             other == IF ph # "off" /\ g.nick # st.me.nick THEN st.me.nick ELSE NONE
         IN [w |-> r.w, g |-> [G EXCEPT ![c].kind = "in"], items |-> <<<<"welcome", g.nick, other>>>>, out |-> r.out]
IsNick(l) == HasArg(l, 1) /\ Arg(l, 1) # "" /\ ~Contains(Arg(l, 1), " ")
OpenLine(W, G, H, cfg, c, l) ==
    LET G2 == CASE Cmd(l) = "NICK" /\ IsNick(l) -> [G EXCEPT ![c].nick = Arg(l, 1)]
                [] Cmd(l) = "USER" /\ HasArg(l, 4) -> [G EXCEPT ![c].user = Arg(l, 1)]
                [] Cmd(l) = "CONNECT" /\ HasArg(l, 1) -> [G EXCEPT ![c].net = Resolve(H, Arg(l, 1), IF HasArg(l, 2) THEN Num(Arg(l, 2)) ELSE 6667)]
                [] OTHER -> G
        says == CASE Cmd(l) = "NICK" -> IF IsNick(l) THEN <<>> ELSE Says("461")
                  [] Cmd(l) = "CONNECT" -> IF HasArg(l, 1) THEN <<>> ELSE Says("461")
                  [] Cmd(l) = "USER" -> IF HasArg(l, 4) THEN <<>> ELSE Says("461")
                  [] Cmd(l) = "PASS" -> <<>>
                  [] OTHER -> Says("451")
    IN IF l = NoLine THEN Res(W, G, <<>>)
       ELSE IF G2[c].nick # NONE /\ G2[c].user # NONE THEN Register(W, G2, cfg, c)
       ELSE Res(W, G2, says)
\* a line of a registered client
InLine(W, G, cfg, c, l, now) ==
    IF l = NoLine THEN Res(W, G, <<>>)
    ELSE LET r == FromClient(W, cfg, c, l, now)
         IN [w |-> r.w, g |-> IF r.w.cl[c].net = NONE THEN Gone(G, c) ELSE G,
             items |-> IF Cmd(l) = "QUIT" THEN Says("ERROR")
                       ELSE IF Cmd(l) = "CTRLPROXY" THEN <<<<"admin">>>>
                       ELSE IF c \in r.out.loose THEN <<<<"offline">>>>
                       ELSE [i \in 1..Len(r.out.cl[c]) |-> <<"line", r.out.cl[c][i]>>],
             out |-> [r.out EXCEPT !.cl[c] = <<>>]]

(* ---- SOCKS5 ---- *)
MethStep(W, G, c) ==
    LET b == G[c].buf n == b[1] ms == {b[i] : i \in 2..(1 + n)} G2 == [G EXCEPT ![c].buf = Drop(b, 1 + n)]
    IN IF 2 \in ms THEN Res(W, [G2 EXCEPT ![c].kind = "auth"], Bytes(<<5, 2>>)) ELSE Res(W, Gone(G, c), Bytes(<<5, 255>>))
AuthStep(W, G, L, c) ==
    LET b == G[c].buf ul == b[2] pl == b[3 + ul]
        u == Text(SubSeq(b, 3, 2 + ul)) p == Text(SubSeq(b, 4 + ul, 3 + ul + pl))
        G2 == [G EXCEPT ![c].buf = Drop(b, 3 + ul + pl)]
    IN IF AcceptsPw(L, G[c].port, u, p) THEN Res(W, [G2 EXCEPT ![c].kind = "req"], Bytes(<<1, 0>>)) ELSE Res(W, G2, Bytes(<<1, 1>>))
ReqStep(W, G, H, c) ==
    LET b == G[c].buf hl == b[5]
        n == Resolve(H, Text(SubSeq(b, 6, 5 + hl)), b[6 + hl] * 256 + b[7 + hl])
        G2 == [G EXCEPT ![c].buf = Drop(b, 7 + hl), ![c].net = n]
    IN IF n = NONE THEN Res(W, Gone(G, c), SocksError(3)) ELSE Res(W, [G2 EXCEPT ![c].kind = "open"], <<<<"granted">>>>)

\* is a whole message there?
Ready(g) ==
    LET b == g.buf IN
    CASE g.kind = "new" -> b # <<>>
      [] g.kind \in {"lines", "open", "in"} -> Pos(b, {LF}) # 0
      [] g.kind = "meth" -> b # <<>> /\ Len(b) >= 1 + b[1]
      [] g.kind = "auth" -> Len(b) >= 2 /\ (b[1] \notin {1, 5} \/ (Len(b) >= 3 + b[2] /\ Len(b) >= 3 + b[2] + b[3 + b[2]]))
      [] g.kind = "req" -> Len(b) >= 4 /\ (b[1] # 5 \/ b[2] # 1 \/ b[4] # 3 \/ (Len(b) >= 5 /\ Len(b) >= 7 + b[5]))
      [] OTHER -> FALSE
\* handles the first message
One(W, G, L, H, cfg, c, now) ==
    LET g == G[c] b == g.buf i == Pos(b, {LF}) l == ReadLine(Take(b, i - 1)) G2 == [G EXCEPT ![c].buf = Drop(b, i)] IN
    CASE g.kind = "new" -> Res(W, IF b[1] = 5 THEN [G EXCEPT ![c].kind = "meth", ![c].buf = Tail(b)] ELSE [G EXCEPT ![c].kind = "lines"], <<>>)
      [] g.kind = "lines" -> KnockLine(W, G2, L, H, c, l)
      [] g.kind = "open" -> OpenLine(W, G2, H, cfg, c, l)
      [] g.kind = "in" -> InLine(W, G2, cfg, c, l, now)
      [] g.kind = "meth" -> MethStep(W, G, c)
      [] g.kind = "auth" -> IF b[1] \in {1, 5} THEN AuthStep(W, G, L, c) ELSE Res(W, Gone(G, c), SocksError(1))
      [] g.kind = "req" -> IF b[1] # 5 THEN Res(W, Gone(G, c), SocksError(1))
                           ELSE IF b[2] # 1 THEN Res(W, Gone(G, c), SocksError(7))
                           ELSE IF b[4] # 3 THEN Res(W, Gone(G, c), SocksError(8))
                           ELSE ReqStep(W, G, H, c)
CatQ(a, b) == [x \in DOMAIN b |-> (IF x \in DOMAIN a THEN a[x] ELSE <<>>) \o b[x]]
Merge(a, b) == [srv |-> CatQ(a.srv, b.srv), cl |-> CatQ(a.cl, b.cl), loose |-> a.loose \cup b.loose]
RECURSIVE Work(_, _, _, _, _, _, _, _, _)
Work(W, G, L, H, cfg, c, now, items, out) ==
    IF ~Ready(G[c]) THEN [w |-> W, g |-> G, items |-> items, out |-> out]
    ELSE LET r == One(W, G, L, H, cfg, c, now) IN Work(r.w, r.g, L, H, cfg, c, now, items \o r.items, Merge(out, r.out))
\* bytes arrive from connection c
Receive(W, G, L, H, cfg, c, bs, now) ==
    IF G[c].kind = "gone" THEN [w |-> W, g |-> G, items |-> <<>>, out |-> NoOut(W)]
    ELSE Work(W, [G EXCEPT ![c].buf = @ \o bs], L, H, cfg, c, now, <<>>, NoOut(W))
Hangup(W, G, c) == [w |-> IF G[c].kind = "in" THEN Detach(W, c) ELSE W, g |-> Gone(G, c)]
=============================================================================
