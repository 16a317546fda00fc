------------------------------- MODULE Daemon -------------------------------
(* ctrlproxyd: one listener in front of the proxies of several users.  A      *)
(* connection names its user and a password, the user's own proxy (reached    *)
(* over a socket in the user's directory) decides about the password, and     *)
(* from then on lines are passed on in both directions.                       *)
(* D.c[c] = [kind, buf, pass, user, nick, conn, b, bbuf]; kind is             *)
(*   "new"    nothing received yet      "lines"  speaks IRC, not complete yet *)
(*   "meth", "auth", "authwait", "req"  the steps of SOCKS5                   *)
(*   "wait"   its proxy was asked       "live"   bridged            "gone"    *)
(* D.n: connections made to proxies so far; they are called 1, 2, ...         *)
EXTENDS Wire
CONSTANT NONE

\* I[user] = [pid (does its process run), sock (does somebody listen on its socket)]; users without entry have neither
\* E = [spawn |-> can proxies be started]
NoConn == [kind |-> "new", buf |-> <<>>, pass |-> NONE, user |-> <<>>, nick |-> NONE, conn |-> <<>>, b |-> 0, bbuf |-> <<>>]
Pid(I, u) == u \in DOMAIN I /\ I[u].pid
Sock(I, u) == u \in DOMAIN I /\ I[u].sock
\* names become part of a path; they have to stay a name there
IsUser(u) == u # "" /\ Ch(u, 1) # "." /\ ~Contains(u, "/")

(* items a connection is sent: <<"bytes", b>>  <<"cmd", command>>  <<"maybe", command>>  <<"line", l>> *)
\* what happens: cl: items for the connection; srv: lines for its proxy; ran: users whose proxy is started
Res(D, items) == [d |-> D, cl |-> items, srv |-> <<>>, ran |-> <<>>]
Bytes(b) == <<<<"bytes", b>>>>
Says(x) == <<<<"cmd", x>>>>
Gone(D, c) == [D EXCEPT !.c[c].kind = "gone", !.c[c].buf = <<>>, !.c[c].bbuf = <<>>]
SocksError(code) == Bytes(<<5, code, 0, 3, 0, 0, 0>>)
L(s) == <<"">> \o s

\* asks the proxy of u about the password; fail: what the connection is told if that's not possible
Ask(D, E, I, c, u, pw, kind, noUser, noSpawn, noSock) ==
    IF ~IsUser(u) THEN Res(Gone(D, c), noUser)
    ELSE IF ~Pid(I, u) /\ ~E.spawn THEN Res(Gone(D, c), noSpawn)
    ELSE LET ran == IF Pid(I, u) THEN <<>> ELSE <<u>> IN
         IF ~Sock(I, u) THEN [Res(Gone(D, c), noSock) EXCEPT !.ran = ran]
         ELSE [d |-> [D EXCEPT !.n = @ + 1, !.c[c].kind = kind, !.c[c].b = D.n + 1],
               cl |-> <<>>, srv |-> <<L(<<"PASS", pw>>)>>, ran |-> ran]

\* a line of a connection that is not complete yet
KnockLine(D, E, I, c, l) ==
    LET x == D.c[c]
        y == CASE Cmd(l) = "PASS" -> [x EXCEPT !.pass = IF HasArg(l, 1) THEN Arg(l, 1) ELSE NONE]
               [] Cmd(l) = "CONNECT" -> [x EXCEPT !.conn = IF HasArg(l, 2) THEN <<Arg(l, 1), Arg(l, 2)>> ELSE IF HasArg(l, 1) THEN <<Arg(l, 1)>> ELSE <<>>]
               [] Cmd(l) = "USER" /\ HasArg(l, 4) -> [x EXCEPT !.user = <<Arg(l, 1), Arg(l, 2), Arg(l, 3), Arg(l, 4)>>]
               [] Cmd(l) = "NICK" -> [x EXCEPT !.nick = IF HasArg(l, 1) THEN Arg(l, 1) ELSE NONE]
               [] OTHER -> x
        D2 == [D EXCEPT !.c[c] = y]
        said == CASE Cmd(l) = "" -> <<<<"maybe", "451">>>>
                  [] Cmd(l) \in {"PASS", "CONNECT", "NICK"} -> <<>>
                  [] Cmd(l) = "USER" /\ HasArg(l, 4) -> <<>>
                  [] OTHER -> Says("451")
    IN IF l = NoLine THEN Res(D, <<>>)
       ELSE IF Cmd(l) = "QUIT" THEN Res(Gone(D, c), <<>>)
       ELSE IF y.pass # NONE /\ y.user # <<>> /\ y.nick # NONE
            THEN Ask(D2, E, I, c, y.user[1], y.pass, "wait", Says("ERROR"), Says("ERROR"), <<>>)
            ELSE Res(D2, said)

(* ---- SOCKS5 ---- *)
\* names end at a zero byte
CStr(bs) == LET i == Pos(bs, {0}) IN IF i = 0 THEN bs ELSE Take(bs, i - 1)
MethStep(D, c) ==
    LET b == D.c[c].buf n == b[1] ms == {b[i] : i \in 2..(1 + n)} D2 == [D EXCEPT !.c[c].buf = Drop(b, 1 + n)]
    IN IF 2 \in ms THEN Res([D2 EXCEPT !.c[c].kind = "auth"], Bytes(<<5, 2>>)) ELSE Res(Gone(D, c), Bytes(<<5, 255>>))
AuthStep(D, E, I, c) ==
    LET b == D.c[c].buf ul == b[2] pl == b[3 + ul]
        u == Text(CStr(SubSeq(b, 3, 2 + ul))) p == Text(CStr(SubSeq(b, 4 + ul, 3 + ul + pl)))
        no == Bytes(<<1, 1>>)
    IN Ask([D EXCEPT !.c[c].buf = Drop(b, 3 + ul + pl), !.c[c].user = <<u>>], E, I, c, u, p, "authwait", no, no, no)
ReqStep(D, c) ==
    LET b == D.c[c].buf hl == b[5]
        host == SubSeq(b, 6, 5 + hl) port == b[6 + hl] * 256 + b[7 + hl]
        D2 == [D EXCEPT !.c[c].buf = Drop(b, 7 + hl), !.c[c].kind = "live"]
    IN [d |-> D2, cl |-> Bytes(<<5, 0, 0, 3, hl>> \o host \o <<b[6 + hl], b[7 + hl]>>),
        srv |-> <<L(<<"CONNECT", Text(host), ToString(port)>>)>>, ran |-> <<>>]

\* is a whole message there?
Ready(g) ==
    LET b == g.buf IN
    CASE g.kind = "new" -> b # <<>>
      [] g.kind \in {"lines", "wait", "live"} -> Pos(b, {LF}) # 0
      [] g.kind = "meth" -> b # <<>> /\ Len(b) >= 1 + b[1]
      [] g.kind = "auth" -> Len(b) >= 2 /\ (b[1] \notin {1, 5} \/ (Len(b) >= 3 + b[2] /\ Len(b) >= 3 + b[2] + b[3 + b[2]]))
      [] g.kind = "authwait" -> b # <<>>
      [] g.kind = "req" -> Len(b) >= 4 /\ (b[1] # 5 \/ b[2] # 1 \/ b[4] # 3 \/ (Len(b) >= 5 /\ Len(b) >= 7 + b[5]))
      [] OTHER -> FALSE
One(D, E, I, c) ==
    LET g == D.c[c] b == g.buf i == Pos(b, {LF}) l == ReadLine(Take(b, i - 1)) D2 == [D EXCEPT !.c[c].buf = Drop(b, i)] IN
    CASE g.kind = "new" -> Res(IF b[1] = 5 THEN [D EXCEPT !.c[c].kind = "meth", !.c[c].buf = Tail(b)] ELSE [D EXCEPT !.c[c].kind = "lines"], <<>>)
      [] g.kind = "lines" -> KnockLine(D2, E, I, c, l)
      [] g.kind = "wait" -> Res(D2, <<>>)   \* nothing but the credentials reaches the proxy before it agreed
      [] g.kind = "live" -> IF l = NoLine THEN Res(D2, <<>>) ELSE [Res(D2, <<>>) EXCEPT !.srv = <<l>>]
      [] g.kind = "meth" -> MethStep(D, c)
      [] g.kind = "auth" -> IF b[1] \in {1, 5} THEN AuthStep(D, E, I, c) ELSE Res(Gone(D, c), SocksError(1))
      [] g.kind = "authwait" -> Res(Gone(D, c), <<>>)
      [] g.kind = "req" -> IF b[1] # 5 THEN Res(Gone(D, c), SocksError(1))
                           ELSE IF b[2] # 1 THEN Res(Gone(D, c), SocksError(7))
                           ELSE IF b[4] # 3 THEN Res(Gone(D, c), SocksError(8))
                           ELSE ReqStep(D, c)
\* a line of the proxy c is connected to
Verdict(l) == IF Respcode(l) = 464 THEN "no"
              ELSE IF l # NoLine /\ Len(l) >= 4 /\ l[2] = "NOTICE" /\ l[3] = "AUTH" /\ l[4] = "PASS OK" THEN "yes" ELSE "odd"
OneBack(D, c) ==
    LET g == D.c[c] b == g.bbuf i == Pos(b, {LF}) l == ReadLine(Take(b, i - 1)) D2 == [D EXCEPT !.c[c].bbuf = Drop(b, i)] v == Verdict(l) IN
    IF l = NoLine THEN Res(D2, <<>>)
    ELSE CASE g.kind = "live" -> Res(D2, <<<<"line", l>>>>)
           [] g.kind = "req" -> Res(D2, <<>>)
           [] g.kind = "wait" /\ v = "yes" ->
                [d |-> [D2 EXCEPT !.c[c].kind = "live"], cl |-> <<>>, ran |-> <<>>,
                 srv |-> (IF g.conn = <<>> THEN <<>> ELSE <<L(<<"CONNECT">> \o g.conn)>>) \o <<L(<<"USER">> \o g.user), L(<<"NICK", g.nick>>)>>]
           [] g.kind = "wait" /\ v = "no" -> Res(Gone(D2, c), Says("464"))
           [] g.kind = "wait" -> Res(Gone(D2, c), Says("ERROR"))
           [] v = "yes" -> Res([D2 EXCEPT !.c[c].kind = "req"], Bytes(<<1, 0>>))
           [] v = "no" -> Res(Gone(D2, c), Bytes(<<1, 1>>))
           [] OTHER -> Res(Gone(D2, c), <<>>)
Then(a, b) == [d |-> b.d, cl |-> a.cl \o b.cl, srv |-> a.srv \o b.srv, ran |-> a.ran \o b.ran]
RECURSIVE Work(_, _, _, _)
Work(D, E, I, c) ==
    IF ~Ready(D.c[c]) THEN Res(D, <<>>)
    ELSE LET r == One(D, E, I, c) IN Then(r, Work(r.d, E, I, c))
RECURSIVE WorkBack(_, _)
WorkBack(D, c) ==
    IF Pos(D.c[c].bbuf, {LF}) = 0 THEN Res(D, <<>>)
    ELSE LET r == OneBack(D, c) IN Then(r, WorkBack(r.d, c))

Fresh(D, c) == [D EXCEPT !.c = [x \in DOMAIN @ \cup {c} |-> IF x = c THEN NoConn ELSE @[x]]]
Receive(D, E, I, c, bs) == IF D.c[c].kind = "gone" THEN Res(D, <<>>) ELSE Work([D EXCEPT !.c[c].buf = @ \o bs], E, I, c)
Answer(D, c, bs) == IF D.c[c].kind = "gone" THEN Res(D, <<>>) ELSE WorkBack([D EXCEPT !.c[c].bbuf = @ \o bs], c)
\* either side goes away
Hangup(D, c) == Res(Gone(D, c), <<>>)
Bridged(D, b) == {c \in DOMAIN D.c : D.c[c].b = b}
Start == [c |-> [x \in {} |-> NoConn], n |-> 0]
=============================================================================
