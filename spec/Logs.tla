-------------------------------- MODULE Logs --------------------------------
(* What is written where when conversations are logged.                      *)
(* A network is [name, host, st, q]: the state of State.tla as of before the *)
(* line, and the nicks the user has been having a private conversation with. *)
(* A configuration is [file, fmt], the fmt of an event being absent when it  *)
(* isn't to be logged. A write is <<file, text>>.                            *)
EXTENDS State

LogNet(name, host) == [name |-> name, host |-> host, st |-> InitState("", "", ""), q |-> <<>>]
LogUp(n, nick, user, host) == [n EXCEPT !.st = InitState(nick, user, host), !.q = <<>>]

(* ---- substitutions ---- *)
UserOf(l) == After(l[1], "!")
TimeOf(c, t) ==
    CASE c = "h" -> t.h [] c = "M" -> t.M [] c = "s" -> t.s [] c = "d" -> t.d
      [] c = "B" -> t.B [] c = "Y" -> t.Y [] c = "e" -> t.e [] c = "b" -> t.b
TIMES == {"h", "M", "s", "d", "B", "Y", "e", "b"}
\* the parameter of a command a letter stands for (0: none)
Param(cmd, c) ==
    CASE cmd \in {"JOIN", "PART", "KICK", "TOPIC"} /\ c = "c" -> 1
      [] cmd \in {"NOTICE", "PRIVMSG", "MSG", "MODE"} /\ c = "t" -> 1
      [] cmd \in {"PART", "NOTICE", "PRIVMSG", "MSG"} /\ c = "m" -> 2
      [] cmd = "KICK" /\ c = "t" -> 2
      [] cmd = "KICK" /\ c = "r" -> 3
      [] cmd = "QUIT" /\ c = "m" -> 1
      [] cmd = "TOPIC" /\ c = "t" -> 2
      [] cmd = "MODE" /\ c = "p" -> 2
      [] cmd = "NICK" /\ c = "r" -> 1
      [] OTHER -> 0
Value(n, l, id, t, c) ==
    CASE c = "@" -> id
      [] c \in TIMES -> TimeOf(c, t)
      [] c = "n" -> OriginNick(l)
      [] c = "u" -> UserOf(l)
      [] c = "N" -> n.name
      [] c = "S" -> n.host
      [] c = "%" -> "%"
      [] c = "c" /\ Cmd(l) = "MODE" -> Join(SubSeq(l, 5, Len(l)), " ")
      [] IsDigit(c) -> Arg(l, DigitVal[c])
      [] Param(Cmd(l), c) # 0 -> Arg(l, Param(Cmd(l), c))
      [] OTHER -> ""
\* names of files don't depend on case and a name can't lead into another directory
RECURSIVE AsFile(_, _, _)
AsFile(s, i, low) ==
    IF i > Len(s) THEN ""
    ELSE LET c == Ch(s, i) IN
         (IF c = "/" THEN "_" ELSE IF low /\ c \in DOMAIN AsciiLow THEN AsciiLow[c] ELSE c) \o AsFile(s, i + 1, low)
RECURSIVE Subst(_, _, _, _, _, _, _)
Subst(n, fmt, l, id, t, path, i) ==
    IF i > Len(fmt) THEN ""
    ELSE IF Ch(fmt, i) # "%" THEN Ch(fmt, i) \o Subst(n, fmt, l, id, t, path, i + 1)
    ELSE IF i = Len(fmt) THEN ""
    ELSE LET c == Ch(fmt, i + 1)
             v == Value(n, l, id, t, c)
         IN (IF path THEN AsFile(v, 1, c \notin ({"N", "S"} \cup TIMES)) ELSE v) \o Subst(n, fmt, l, id, t, path, i + 2)
Text(n, fmt, l, id, t) == Subst(n, fmt, l, id, t, FALSE, 1)
File(n, fmt, l, id, t) == Subst(n, fmt, l, id, t, TRUE, 1)

(* ---- conversations ---- *)
InQuery(n, nick) == FirstIdx(n.q, LAMBDA x : SameN(n.st, x, nick)) # 0
KnowsNick(n, nick) ==
    IsMe(n.st, nick) \/ InQuery(n, nick) \/ (\E i \in 1..Len(n.st.chans) : NickIdx(n.st, n.st.chans[i], nick) # 0)
\* a conversation has one name, however it was spelled
Conversation(n, name) ==
    IF OnChan(n.st, name) THEN n.st.chans[ChanIdx(n.st, name)].name
    ELSE LET k == KnownAs(n.st, name) i == FirstIdx(n.q, LAMBDA x : SameN(n.st, x, name))
         IN IF i # 0 /\ k = name THEN n.q[i] ELSE k
Targets(n, s) == SeqMap(LAMBDA x : Conversation(n, x), Split(s, ","))
\* conversations a line belongs to by its first parameter
Partner(n, l) ==
    IF IsMe(n.st, Arg(l, 1)) THEN <<IF l[1] = "" THEN "_messages_" ELSE OriginNick(l)>>
    ELSE Targets(n, Arg(l, 1))
\* conversations somebody takes part in
Present(n, nick) ==
    IF nick = "" \/ ~KnowsNick(n, nick) THEN <<>>
    ELSE (IF IsMe(n.st, nick) \/ InQuery(n, nick) THEN <<nick>> ELSE <<>>)
         \o SeqMap(LAMBDA x : x.name, SelectSeq(n.st.chans, LAMBDA x : NickIdx(n.st, x, nick) # 0))

(* ---- CTCP ---- *)
IsCTCP(s) == Len(s) > 0 /\ Ch(s, 1) = CTCPCH
Undelimited(s) == IF Len(s) > 1 /\ Ch(s, Len(s)) = CTCPCH THEN SubSeq(s, 1, Len(s) - 1) ELSE s
IsAction(s) == Len(s) >= 8 /\ Up(SubSeq(s, 2, 8)) = "ACTION "
ActionText(l) == LET s == Undelimited(Arg(l, 2)) IN SetArg(l, 2, SubSeq(s, 9, Len(s)))

\* what kind of event a line is, with which text, and where
Nothing == [kind |-> "", line |-> <<>>, where |-> <<>>]
LogEvent(n, l, fromServer) ==
    LET c == Cmd(l)
        Ev(k, ll, w) == [kind |-> k, line |-> ll, where |-> w]
    IN CASE c = "JOIN" /\ fromServer /\ HasArg(l, 1) -> Ev("join", l, Partner(n, l))
         [] c = "PART" /\ fromServer /\ HasArg(l, 1) -> Ev("part", l, Targets(n, Arg(l, 1)))
         [] c = "PRIVMSG" /\ HasArg(l, 2) ->
                IF ~IsCTCP(Arg(l, 2)) THEN Ev("msg", l, Partner(n, l))
                ELSE IF IsAction(Undelimited(Arg(l, 2))) THEN Ev("action", ActionText(l), Partner(n, l)) ELSE Nothing
         [] c = "NOTICE" /\ HasArg(l, 1) -> Ev("notice", l, Partner(n, l))
         [] c = "MODE" /\ fromServer /\ HasArg(l, 1) /\ IsChanName(n.st, Arg(l, 1)) -> Ev("mode", l, Targets(n, Arg(l, 1)))
         [] c = "QUIT" -> Ev("quit", l, Present(n, OriginNick(l)))
         [] c = "KICK" /\ fromServer /\ HasArg(l, 2) -> Ev("kick", l, Targets(n, Arg(l, 1)))
         [] c = "TOPIC" /\ fromServer /\ HasArg(l, 1) ->
                Ev(IF HasArg(l, 2) THEN "topic" ELSE "notopic", l, Targets(n, Arg(l, 1)))
         [] c = "NICK" /\ fromServer /\ HasArg(l, 1) -> Ev("nickchange", l, Present(n, OriginNick(l)))
         [] OTHER -> Nothing

\* everything written because of a line
Written(cfg, n, l, fromServer, t) ==
    LET ev == LogEvent(n, l, fromServer) IN
    IF ev.kind \notin DOMAIN cfg.fmt \/ cfg.file = "" THEN <<>>
    ELSE SeqMap(LAMBDA id : <<File(n, cfg.file, ev.line, id, t), Text(n, cfg.fmt[ev.kind], ev.line, id, t)>>, ev.where)

\* and what the network is like afterwards
After1(n, l, now) ==
    LET st2 == Apply(n.st, l, now)
        nick == OriginNick(l)
        i == FirstIdx(n.q, LAMBDA x : SameN(n.st, x, nick))
        q2 == CASE Cmd(l) = "PRIVMSG" /\ l[1] # "" /\ HasArg(l, 2) /\ IsMe(n.st, Arg(l, 1)) /\ i = 0 /\ ~IsMe(n.st, nick) ->
                     Append(n.q, KnownAs(n.st, nick))
                [] Cmd(l) = "QUIT" /\ l[1] # "" /\ i # 0 -> DropAt(n.q, i)
                [] Cmd(l) = "NICK" /\ l[1] # "" /\ HasArg(l, 1) /\ i # 0 -> [n.q EXCEPT ![i] = Arg(l, 1)]
                [] OTHER -> n.q
    IN [n EXCEPT !.st = st2, !.q = q2]
=============================================================================
