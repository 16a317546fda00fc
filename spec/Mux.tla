-------------------------------- MODULE Mux --------------------------------
(* Several clients on several networks: who is shown what.                   *)
(* W.nets[n] = [st, phase, q, order]: tracked state, "off" / "login" / "up",  *)
(*   outstanding queries (oldest first), attached clients (oldest first)      *)
(* W.cl[c]   = [net, me]: the identity the client knows for the user          *)
EXTENDS State, Queries
CONSTANTS NONE
(* cfg: [report, offset, autocmd (seq of lines), join (seq of lines), strictnick] per network *)

\* RFC 1459 numerics that never concern clients (the MOTD of the login), and those about the login itself
MotdNumerics == {375, 372, 376, 422}
LoginNumerics == {464, 462, 463, 451, 465}

TwoDigits(k) == LET D == <<"0","1","2","3","4","5","6","7","8","9">> IN D[(k \div 10) + 1] \o D[(k % 10) + 1]
TimeOfDay(t) == LET s == t % 86400 IN TwoDigits(s \div 3600) \o ":" \o TwoDigits((s % 3600) \div 60) \o ":" \o TwoDigits(s % 60)
IsCtcp(l) == Cmd(l) \in {"PRIVMSG", "NOTICE"} /\ HasArg(l, 2) /\ StartsWith(Arg(l, 2), CTCPCH)
IsAction(l) == IsCtcp(l) /\ StartsWith(Up(Arg(l, 2)), CTCPCH \o "ACTION")
CtcpRequest(l) == Cmd(l) = "PRIVMSG" /\ IsCtcp(l) /\ ~IsAction(l)
CtcpReply(l) == Cmd(l) = "NOTICE" /\ IsCtcp(l)
Stamp(l, t) ==
    IF ~HasArg(l, 2) THEN l
    ELSE IF ~IsCtcp(l) THEN SetArg(l, 2, "[" \o TimeOfDay(t) \o "] " \o Arg(l, 2))
    ELSE IF StartsWith(Arg(l, 2), CTCPCH \o "ACTION")
         THEN SetArg(l, 2, CTCPCH \o "ACTION [" \o TimeOfDay(t) \o "]" \o SubSeq(Arg(l, 2), 8, Len(Arg(l, 2))))
    ELSE l

\* the identity a client has after being shown line l
MeAfter(cst, me, l, now) ==
    Apply([cst EXCEPT !.me = me, !.chans = <<>>, !.umodes = {}], l, now).me
Show(W, n, c, l) == Rewrite(W.nets[n].st.info.cm, l, W.nets[n].st.me, W.cl[c].me)

NoOut(W) == [srv |-> [n \in DOMAIN W.nets |-> <<>>], cl |-> [c \in DOMAIN W.cl |-> <<>>], loose |-> {}]
\* delivers l to the clients in the sequence cs
RECURSIVE Deliver(_, _, _, _, _, _)
Deliver(W, out, n, cs, l, now) ==
    IF cs = <<>> THEN [w |-> W, out |-> out]
    ELSE LET c == Head(cs)
             ln == Show(W, n, c, l)
             W2 == [W EXCEPT !.cl[c].me = MeAfter(W.nets[n].st, @, ln, now)]
         IN Deliver(W2, [out EXCEPT !.cl[c] = Append(@, ln)], n, Tail(cs), l, now)
ToSrv(out, n, l) == [out EXCEPT !.srv[n] = Append(@, WithOrigin(l, ""))]
RECURSIVE ToSrvAll(_, _, _)
ToSrvAll(out, n, ls) == IF ls = <<>> THEN out ELSE ToSrvAll(ToSrv(out, n, Head(ls)), n, Tail(ls))

Answers(cmd, r) == LET q == QueryOf(cmd) IN r \in q.more \cup q.final \cup q.err
Oldest(q, r) == FirstIdx(q, LAMBDA e : Answers(e.cmd, r))
RecordsQuery(l) == ~(Cmd(l) = "TOPIC" /\ HasArg(l, 2))
Ask(W, n, c, l) == IF RecordsQuery(l) THEN [W EXCEPT !.nets[n].q = Append(@, [c |-> c, cmd |-> Cmd(l)])] ELSE W

(* ---- CTCP answered by the proxy itself ---- *)
CtcpKnown == {"VERSION", "CLIENTINFO", "SOURCE", "PING", "FINGER", "TIME", "ACTION"}
CtcpBody(l) == LET t == SubSeq(Arg(l, 2), 2, Len(Arg(l, 2))) IN Before(t, CTCPCH)
CtcpWord(l) == Up(Before(CtcpBody(l), " "))
CtcpWellFormed(l) == l[1] # "" /\ Contains(SubSeq(Arg(l, 2), 2, Len(Arg(l, 2))), CTCPCH) /\ CtcpBody(l) # ""
CtcpAnswer(l) ==
    IF ~CtcpWellFormed(l) \/ CtcpWord(l) = "ACTION" THEN <<>>
    ELSE <<<<"", "NOTICE", OriginNick(l), "CTCP " \o (IF CtcpWord(l) \in CtcpKnown THEN CtcpWord(l) ELSE "ERRMSG")>>>>
\* how a recorded reply is written in this shape
NormReply(l) ==
    IF Cmd(l) = "NOTICE" /\ IsCtcp(l) THEN <<"", "NOTICE", Arg(l, 1), "CTCP " \o CtcpWord(l)>> ELSE l

(* ---- a line from the server of network n ---- *)
LoginLines(W, cfg, n, me) ==
    <<<<"", "USERHOST", me>>>> \o cfg[n].autocmd \o cfg[n].join
FromServer(W, cfg, n, l, now) ==
    LET net == W.nets[n]
        none == NoOut(W)
        r == Respcode(l)
        st2 == Apply(net.st, l, now)
        W1 == [W EXCEPT !.nets[n].st = st2]
        cs == net.order
        t == now + cfg[n].offset
    IN
    IF net.phase = "off" THEN [w |-> W, out |-> none]
    ELSE IF Cmd(l) = "PING" THEN [w |-> W1, out |-> ToSrv(none, n, IF HasArg(l, 1) THEN <<"", "PONG", Arg(l, 1)>> ELSE <<"", "PONG">>)]
    ELSE IF Cmd(l) = "PONG" THEN [w |-> W1, out |-> none]
    ELSE IF r = 433 /\ net.phase = "login" THEN
        [w |-> IF HasArg(l, 2) THEN [W1 EXCEPT !.nets[n].st.me.nick = Arg(l, 2) \o "_"] ELSE W1,
         out |-> IF HasArg(l, 2) THEN ToSrv(none, n, <<"", "NICK", Arg(l, 2) \o "_">>) ELSE none]
    ELSE IF r \in {376, 422} /\ net.phase = "login" THEN
        \* logged in: every attached client is brought up to date
        [w |-> [[W1 EXCEPT !.nets[n].phase = "up"] EXCEPT !.cl =
                  [c \in DOMAIN W.cl |-> IF c \in Range(cs) THEN [W.cl[c] EXCEPT !.me.nick = st2.me.nick] ELSE W.cl[c]]],
         out |-> [ToSrvAll(none, n, LoginLines(W, cfg, n, st2.me.nick)) EXCEPT !.loose = Range(cs)]]
    ELSE IF net.phase = "login" THEN [w |-> W1, out |-> none]
    ELSE IF r # 0 THEN
        LET k == Oldest(net.q, r) IN
        IF k # 0 THEN
            LET c == net.q[k].c
                W2 == IF r \in QueryOf(net.q[k].cmd).more THEN W1 ELSE [W1 EXCEPT !.nets[n].q = DropAt(@, k)]
            IN IF c \in Range(cs) THEN Deliver(W2, none, n, <<c>>, l, now) ELSE [w |-> W2, out |-> none]
        ELSE IF r \in MotdNumerics \cup LoginNumerics THEN [w |-> W1, out |-> none]
        ELSE Deliver(W1, none, n, cs, l, now)
    ELSE IF cs = <<>> THEN
        [w |-> W1, out |-> IF CtcpRequest(l) THEN ToSrvAll(none, n, CtcpAnswer(l)) ELSE none]
    ELSE Deliver(W1, none, n, cs, IF cfg[n].report /\ Cmd(l) = "PRIVMSG" THEN Stamp(l, t) ELSE l, now)

(* ---- a line from an attached client ---- *)
Detach(W, c) ==
    [W EXCEPT !.nets[W.cl[c].net].order = SelectSeq(@, LAMBDA x : x # c), !.cl[c].net = NONE]
Forward(W, cfg, n, c, l, echo, now) ==
    LET none == NoOut(W)
        e0 == WithOrigin(l, Mask(W.nets[n].st.me))
        e == IF cfg[n].report THEN Stamp(e0, now + cfg[n].offset) ELSE e0
        d == IF echo THEN Deliver(W, none, n, SelectSeq(W.nets[n].order, LAMBDA x : x # c), e, now) ELSE [w |-> W, out |-> none]
    IN [w |-> Ask(d.w, n, c, l), out |-> ToSrv(d.out, n, l)]
FromClient(W, cfg, c, l, now) ==
    LET n == W.cl[c].net
        net == W.nets[n]
        none == NoOut(W)
        reply(x) == [w |-> W, out |-> [none EXCEPT !.cl[c] = <<x>>]]
        me == W.cl[c].me.nick
    IN
    CASE Cmd(l) = "" -> [w |-> W, out |-> none]
      [] Cmd(l) = "QUIT" -> [w |-> Detach(W, c), out |-> [none EXCEPT !.loose = {c}]]
      [] Cmd(l) = "PING" -> reply(IF HasArg(l, 1) THEN <<n, "PONG", n, Arg(l, 1)>> ELSE <<n, "PONG", n>>)
      [] Cmd(l) = "PONG" -> IF HasArg(l, 1) THEN [w |-> W, out |-> none] ELSE reply(<<n, "461", me, l[2], "Not enough parameters">>)
      [] Cmd(l) \in {"USER", "PASS"} -> reply(<<n, "462", me, "Please register only once per session">>)
      [] Cmd(l) = "CTRLPROXY" -> [w |-> W, out |-> [none EXCEPT !.loose = {c}]]
      [] Cmd(l) \in {"PRIVMSG", "NOTICE"} /\ net.phase # "off" /\ (CtcpRequest(l) \/ CtcpReply(l)) ->
            Forward(W, cfg, n, c, l, FALSE, now)
      [] net.phase = "up" -> Forward(W, cfg, n, c, l, Cmd(l) \in {"PRIVMSG", "NOTICE"}, now)
      [] net.phase = "login" -> [w |-> W, out |-> none]
      [] OTHER -> [w |-> W, out |-> [none EXCEPT !.loose = {c}]]     \* told that there is no connection

(* ---- clients come, connections come and go ---- *)
Attach(W, cfg, c, n, nick, user, host) ==
    LET net == W.nets[n]
        conn == net.phase # "off"
        differs == conn /\ ~SameN(net.st, nick, net.st.me.nick)
        W1 == [W EXCEPT !.nets[n].order = Append(@, c),
                        !.cl = [x \in DOMAIN @ \cup {c} |-> IF x = c
                                 THEN [net |-> n, me |-> [nick |-> IF conn THEN net.st.me.nick ELSE nick, user |-> user, host |-> host]]
                                 ELSE @[x]]]
        o == [NoOut(W1) EXCEPT !.loose = {c}]
    IN [w |-> W1, out |-> IF differs THEN ToSrv(o, n, <<"", "NICK", nick>>) ELSE o]
Lost(W, n) ==
    [w |-> [W EXCEPT !.nets[n].phase = "off", !.nets[n].q = <<>>], out |-> [NoOut(W) EXCEPT !.loose = Range(W.nets[n].order)]]
Connected(W, n, nick, user, host) ==
    [w |-> [W EXCEPT !.nets[n].phase = "login", !.nets[n].st = InitState(nick, user, host), !.nets[n].q = <<>>],
     out |-> NoOut(W)]

(* What two parties compare when the user's own identity is left aside *)
Plain(l) ==
    LET a == IF Contains(l[1], "!") THEN Before(l[1], "!") ELSE l[1]
        b == IF Respcode(l) \in {352, 311, 314} /\ HasArg(l, 4) THEN SetArg(SetArg(l, 3, "*"), 4, "*")
             ELSE IF Respcode(l) = 302 /\ HasArg(l, 2) THEN SetArg(l, 2, "*") ELSE l
    IN WithOrigin(b, a)

(* What a line is about *)
KindOfServer(l) ==
    IF Cmd(l) \in {"PING", "PONG"} THEN "P13" ELSE IF Respcode(l) # 0 THEN "P03"
    ELSE IF CtcpRequest(l) \/ CtcpReply(l) THEN "P14" ELSE "P04"
KindOfClient(l) ==
    IF Cmd(l) \in {"PING", "PONG"} THEN "P13" ELSE IF CtcpRequest(l) \/ CtcpReply(l) THEN "P14" ELSE "P04"
=============================================================================
