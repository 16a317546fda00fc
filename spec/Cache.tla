------------------------------- MODULE Cache -------------------------------
(* Questions the proxy may answer itself: what has to be known for an answer  *)
(* (beyond the tracked state), and what the answer is.                         *)
(* K[n] = [named, who, nk]                                                     *)
(*   named: channels (folded) of which a complete list of names was received   *)
(*   who:   what WHO said about a member: [ch, nick, flags, at]                *)
(*   nk:    what is known about a nick: [nick, user, host, server, info]       *)
EXTENDS Mux

NoKnowledge == [named |-> {}, who |-> {}, nk |-> {}]
F(st, x) == Fold(st.info.cm, x)
MemberModes(st, c, n) ==
    LET ci == ChanIdx(st, c) IN
    IF ci = 0 THEN {"gone"}
    ELSE LET j == NickIdx(st, st.chans[ci], n) IN IF j = 0 THEN {"gone"} ELSE st.chans[ci].nicks[j].modes
\* the information at the end of a WHO reply: the distance, then the real name
WhoInfo(t) == ToString(Num(t)) \o " " \o After(t, " ")
SetUser(K, n, user, host) ==
    [K EXCEPT !.nk = {IF x.nick = n THEN [x EXCEPT !.user = user, !.host = host] ELSE x : x \in @}]
RECURSIVE SetUsers(_, _, _)
SetUsers(K, st, ws) ==
    IF ws = <<>> THEN K
    ELSE LET w == Head(ws)
             i == Index(w, "=")
             n0 == IF i = 0 THEN "" ELSE SubSeq(w, 1, i - 1)
             n == IF EndsWith(n0, "*") THEN SubSeq(n0, 1, Len(n0) - 1) ELSE n0
             uh == IF i = 0 THEN "" ELSE SubSeq(w, i + 2, Len(w))
         IN SetUsers(IF i = 0 \/ i = Len(w) \/ ~Contains(uh, "@") THEN K
                     ELSE SetUser(K, F(st, n), Before(uh, "@"), After(uh, "@")), st, Tail(ws))
\* what is known after line l, which took the state from st to st2
Remember(K, st, st2, l, now) ==
    LET r == Respcode(l)
        o == l[1]
        on == ChanIdx(st2, Arg(l, 2)) # 0
        K1 == CASE r = 366 /\ HasArg(l, 2) /\ on -> [K EXCEPT !.named = @ \cup {F(st2, Arg(l, 2))}]
                [] r = 352 /\ HasArg(l, 8) ->
                     LET n == F(st2, Arg(l, 6)) c == F(st2, Arg(l, 2))
                         k == {x \in K.nk : x.nick # n} \cup
                              {[nick |-> n, user |-> Arg(l, 3), host |-> Arg(l, 4), server |-> Arg(l, 5), info |-> WhoInfo(Arg(l, 8))]}
                         w == IF on /\ MemberModes(st2, c, n) # {"gone"}
                              THEN {x \in K.who : ~(x.ch = c /\ x.nick = n)} \cup {[ch |-> c, nick |-> n, flags |-> Arg(l, 7), at |-> now]}
                              ELSE K.who
                     IN [K EXCEPT !.nk = k, !.who = w]
                [] r = 302 /\ HasArg(l, 2) -> SetUsers(K, st2, Split(Arg(l, 2), " "))
                [] Cmd(l) = "JOIN" /\ CompleteMask(o) -> SetUser(K, F(st2, Before(o, "!")), Before(After(o, "!"), "@"), After(After(o, "!"), "@"))
                [] Cmd(l) = "NICK" /\ o # "" /\ HasArg(l, 1) ->
                     LET a == F(st2, OriginNick(l)) b == F(st2, Arg(l, 1))
                         nk2 == IF a = b THEN K.nk ELSE {IF x.nick = a THEN [x EXCEPT !.nick = b] ELSE x : x \in {y \in K.nk : y.nick # b}}
                     IN [K EXCEPT !.nk = nk2, !.who = {IF x.nick = a THEN [x EXCEPT !.nick = b] ELSE x : x \in @}]
                [] r = 1 /\ HasArg(l, 1) ->
                     LET a == F(st2, st.me.nick) b == F(st2, Arg(l, 1)) IN
                     [K EXCEPT !.nk = {IF x.nick = a THEN [x EXCEPT !.nick = b] ELSE x : x \in @},
                               !.who = {IF x.nick = a THEN [x EXCEPT !.nick = b] ELSE x : x \in @}]
                [] OTHER -> K
        was(x) == IF Cmd(l) = "NICK" \/ r = 1 THEN MemberModes(st2, x.ch, x.nick) ELSE MemberModes(st, x.ch, x.nick)
    IN [K1 EXCEPT !.named = {c \in @ : ChanIdx(st2, c) # 0 /\ ChanIdx(st, c) # 0},
                  !.who = {x \in @ : MemberModes(st2, x.ch, x.nick) # {"gone"} /\ was(x) = MemberModes(st2, x.ch, x.nick)}]

(* ---- the questions ---- *)
Question(st, l) ==
    IF ~HasArg(l, 1) \/ ~OnChan(st, Arg(l, 1)) THEN "none"
    ELSE CASE Cmd(l) \in {"NAMES", "TOPIC", "WHO"} /\ ~HasArg(l, 2) -> Cmd(l)
           [] Cmd(l) = "MODE" /\ ~HasArg(l, 2) -> "MODE"
           [] Cmd(l) = "MODE" /\ Arg(l, 2) = "b" /\ ~HasArg(l, 3) -> "BANS"
           [] OTHER -> "none"
Asked(st, l) == st.chans[ChanIdx(st, Arg(l, 1))]
Named(st, K, ch) == F(st, ch.name) \in K.named /\ ~ch.naming
WhoOf(st, K, ch, m) == {x \in K.who : x.ch = F(st, ch.name) /\ x.nick = F(st, m.nick)}
\* is everything known that the answer consists of, and recent enough?
Known(st, K, l, now, age) ==
    LET q == Question(st, l) ch == Asked(st, l) IN
    CASE q = "none" -> FALSE
      [] q = "NAMES" -> Named(st, K, ch)
      [] q = "TOPIC" -> F(st, ch.name) \in K.named
      [] q = "MODE" -> ch.got /\ \A m \in ch.modes : ModeClass(st, m) \in {"setting", "opt"} => m \in DOMAIN ch.opts
      [] q = "BANS" -> ch.lists["b"].present /\ ~ch.lists["b"].started
      [] q = "WHO" -> Named(st, K, ch) /\ \A j \in 1..Len(ch.nicks) : \E x \in WhoOf(st, K, ch, ch.nicks[j]) : now < x.at + age

(* ---- the answers: g is what the client got ---- *)
Highest(st, modes) ==
    LET I == {i \in 1..Len(st.info.pmodes) : Ch(st.info.pmodes, i) \in modes /\ i <= Len(st.info.psyms)}
    IN IF I = {} THEN "" ELSE Ch(st.info.psyms, CHOOSE i \in I : \A j \in I : i <= j)
Bag(q) == [x \in Range(q) |-> Cardinality({i \in 1..Len(q) : q[i] = x})]
Body(g) == SubSeq(g, 1, Len(g) - 1)
Ends(st, g, ch, num) == Len(g) > 0 /\ g[Len(g)][2] = num /\ SameN(st, Arg(g[Len(g)], 2), ch.name)
NamesOk(st, ch, g) ==
    /\ Ends(st, g, ch, "366")
    /\ \A i \in 1..Len(Body(g)) : /\ g[i][2] = "353" /\ Len(g[i]) = 6 /\ SameN(st, Arg(g[i], 3), ch.name)
                                  /\ Arg(g[i], 2) = IF ch.vis = "" THEN "=" ELSE ch.vis
    /\ Bag(Flat([i \in 1..Len(Body(g)) |-> LET ns == NonEmpty(Split(Arg(g[i], 4), " ")) IN [j \in 1..Len(ns) |-> F(st, ns[j])]]))
       = Bag([j \in 1..Len(ch.nicks) |-> F(st, Highest(st, ch.nicks[j].modes) \o ch.nicks[j].nick)])
TopicOk(st, ch, g) ==
    IF ch.hastopic /\ ch.topic # ""
    THEN LET who == ch.at # 0 /\ ch.by # "" IN
         /\ Len(g) = IF who THEN 2 ELSE 1
         /\ g[1][2] = "332" /\ SameN(st, Arg(g[1], 2), ch.name) /\ Len(g[1]) = 5 /\ Arg(g[1], 3) = ch.topic
         /\ who => g[2][2] = "333" /\ SameN(st, Arg(g[2], 2), ch.name) /\ Arg(g[2], 3) = ch.by /\ Arg(g[2], 4) = ToString(ch.at)
    ELSE Len(g) = 1 /\ g[1][2] = "331" /\ SameN(st, Arg(g[1], 2), ch.name)
ModeOk(st, ch, g) ==
    /\ Len(g) = (IF ch.created # 0 THEN 2 ELSE 1)
    /\ g[1][2] = "324" /\ SameN(st, Arg(g[1], 2), ch.name)
    /\ Len(Arg(g[1], 3)) = 1 + Cardinality(ch.modes) /\ StartsWith(Arg(g[1], 3), "+")
    /\ WholeModes(Arg(g[1], 3)) = ch.modes
    /\ LET rest == SubSeq(g[1], 6, Len(g[1]))
           opts == [m \in (DOMAIN ch.opts) \cap ch.modes |-> ch.opts[m]]
       IN Len(rest) = Cardinality(DOMAIN opts) /\ WholeOpts(st, Arg(g[1], 3), 1, rest, [x \in {} |-> ""]) = opts
    /\ ch.created # 0 => g[2][2] = "329" /\ SameN(st, Arg(g[2], 2), ch.name) /\ Arg(g[2], 3) = ToString(ch.created)
BansOk(st, ch, g) ==
    /\ Ends(st, g, ch, "368")
    /\ \A i \in 1..Len(Body(g)) : /\ g[i][2] = "367" /\ SameN(st, Arg(g[i], 2), ch.name)
                                  /\ HasArg(g[i], 4) => \E e \in Range(ch.lists["b"].entries) : e[1] = Arg(g[i], 3) /\ Same(st.info.cm, e[2], Arg(g[i], 4))
    /\ Bag([i \in 1..Len(Body(g)) |-> Arg(g[i], 3)]) = Bag([i \in 1..Len(ch.lists["b"].entries) |-> ch.lists["b"].entries[i][1]])
WhoLine(st, K, ch, m) ==
    LET w == CHOOSE x \in WhoOf(st, K, ch, m) : TRUE
        k == CHOOSE x \in K.nk : x.nick = F(st, m.nick)
        me == IsMe(st, m.nick)
    IN <<IF me THEN "*" ELSE k.user, IF me THEN "*" ELSE k.host, k.server, F(st, m.nick), w.flags, k.info>>
WhoOk(st, K, ch, g) ==
    /\ Ends(st, g, ch, "315")
    /\ \A i \in 1..Len(Body(g)) : g[i][2] = "352" /\ SameN(st, Arg(g[i], 2), ch.name) /\ Len(g[i]) = 10
    /\ Bag([i \in 1..Len(Body(g)) |->
              LET me == IsMe(st, Arg(g[i], 6))
              IN <<IF me THEN "*" ELSE Arg(g[i], 3), IF me THEN "*" ELSE Arg(g[i], 4), Arg(g[i], 5), F(st, Arg(g[i], 6)), Arg(g[i], 7), Arg(g[i], 8)>>])
       = Bag([j \in 1..Len(ch.nicks) |-> WhoLine(st, K, ch, ch.nicks[j])])
\* g answers the question l, coming from the proxy as server name `from', to a client known as nick
AnswerOk(st, K, l, g, from, nick) ==
    LET q == Question(st, l) ch == Asked(st, l) IN
    /\ \A i \in 1..Len(g) : g[i][1] = from /\ SameN(st, Arg(g[i], 1), nick)
    /\ CASE q = "NAMES" -> NamesOk(st, ch, g)
         [] q = "TOPIC" -> TopicOk(st, ch, g)
         [] q = "MODE" -> ModeOk(st, ch, g)
         [] q = "BANS" -> BansOk(st, ch, g)
         [] q = "WHO" -> WhoOk(st, K, ch, g)
         [] OTHER -> FALSE
=============================================================================
