------------------------------- MODULE State -------------------------------
(* The view of a network that follows from the lines its server sent: the     *)
(* IRC meaning of every message, applied in order.                            *)
EXTENDS Irc

Modes(s) == CharSet(s)
DefaultInfo == [cm |-> "", pmodes |-> "ov", psyms |-> "@+", chantypes |-> "#&",
                cmodes |-> <<"beI", "k", "l", "imnpsta">>]
InitState(nick, user, host) ==
    [me |-> [nick |-> nick, user |-> user, host |-> host], umodes |-> {}, away |-> FALSE,
     info |-> DefaultInfo, chans |-> <<>>, server |-> ""]

NoList == [present |-> FALSE, entries |-> <<>>, started |-> FALSE]
NewChan(name) ==
    [name |-> name, hastopic |-> FALSE, topic |-> "", by |-> "", at |-> 0, created |-> 0, modes |-> {},
     opts |-> [c \in {} |-> ""], got |-> FALSE, vis |-> "", naming |-> FALSE,
     lists |-> [m \in {"b", "e", "I"} |-> NoList], nicks |-> <<>>]

SameN(st, a, b) == Same(st.info.cm, a, b)
ChanIdx(st, name) == FirstIdx(st.chans, LAMBDA c : SameN(st, c.name, name))
OnChan(st, name) == ChanIdx(st, name) # 0
NickIdx(st, ch, n) == FirstIdx(ch.nicks, LAMBDA m : SameN(st, m.nick, n))
IsMe(st, n) == SameN(st, st.me.nick, n)
IsPrefix(st, c) == Contains(st.info.psyms, c)
StripPrefix(st, n) == IF Len(n) > 0 /\ IsPrefix(st, Ch(n, 1)) THEN SubSeq(n, 2, Len(n)) ELSE n
PrefixMode(st, c) == LET i == Index(st.info.psyms, c) IN IF i = 0 \/ i > Len(st.info.pmodes) THEN "" ELSE Ch(st.info.pmodes, i)
IsPrefixMode(st, m) == Contains(st.info.pmodes, m)
IsChanName(st, n) == Len(n) > 0 /\ Contains(st.info.chantypes, Ch(n, 1))
SetChan(st, i, ch) == [st EXCEPT !.chans[i] = ch]
ModeClass(st, m) ==
    LET q == st.info.cmodes
    IN IF Contains(q[1], m) THEN "list" ELSE IF Contains(q[2], m) THEN "setting"
       ELSE IF Contains(q[3], m) THEN "opt" ELSE IF Contains(q[4], m) THEN "bool" ELSE "unknown"

\* a complete hostmask makes known how a nick is written and where it comes from
CompleteMask(o) == Contains(o, "!") /\ Contains(After(o, "!"), "@")
LearnMask(st, known, nick, user, host) ==
    LET st1 == IF IsMe(st, known) THEN [st EXCEPT !.me = [nick |-> nick, user |-> user, host |-> host]] ELSE st
    IN [st1 EXCEPT !.chans = [i \in 1..Len(@) |->
            [@[i] EXCEPT !.nicks = [j \in 1..Len(@) |->
                IF SameN(st, @[j].nick, known) THEN [@[j] EXCEPT !.nick = nick] ELSE @[j]]]]]
LearnOrigin(st, o) ==
    IF ~CompleteMask(o) THEN st
    ELSE LearnMask(st, Before(o, "!"), Before(o, "!"), Before(After(o, "!"), "@"), After(After(o, "!"), "@"))

AddMember(st, ci, name) ==
    LET pre == IF Len(name) > 0 /\ IsPrefix(st, Ch(name, 1)) THEN PrefixMode(st, Ch(name, 1)) ELSE ""
        n == StripPrefix(st, name)
        ch == st.chans[ci]
    IN IF NickIdx(st, ch, n) # 0 THEN st
       ELSE SetChan(st, ci, [ch EXCEPT !.nicks = Append(@, [nick |-> IF IsMe(st, n) THEN st.me.nick ELSE n,
                                                       modes |-> IF pre = "" THEN {} ELSE {pre}])])
\* how a nick already known elsewhere is written (names are shared between channels)
KnownAs(st, n) ==
    IF IsMe(st, n) THEN st.me.nick
    ELSE LET I == {i \in 1..Len(st.chans) : NickIdx(st, st.chans[i], n) # 0}
         IN IF I = {} THEN n ELSE LET i == CHOOSE x \in I : TRUE IN st.chans[i].nicks[NickIdx(st, st.chans[i], n)].nick
AddNamed(st, ci, name) ==
    LET n == StripPrefix(st, name)
        p == IF n = name THEN "" ELSE Ch(name, 1)
    IN AddMember(st, ci, p \o KnownAs(st, n))

RECURSIVE DoJoin(_, _, _)
DoJoin(st, o, chs) ==
    IF chs = <<>> THEN st
    ELSE LET nick == Before(o, "!")
             name == Head(chs)
             st0 == IF OnChan(st, name) THEN st
                    ELSE IF IsMe(st, nick) THEN [st EXCEPT !.chans = Append(@, NewChan(name))] ELSE st
         IN IF ~OnChan(st0, name) THEN DoJoin(st0, o, Tail(chs))
            ELSE DoJoin(LearnOrigin(AddNamed(st0, ChanIdx(st0, name), nick), o), o, Tail(chs))

RemoveMember(st, ci, nick) ==
    LET ch == st.chans[ci] j == NickIdx(st, ch, nick) IN
    IF j = 0 THEN st ELSE SetChan(st, ci, [ch EXCEPT !.nicks = DropAt(@, j)])
Leave(st, ci, nick) ==
    IF IsMe(st, nick) THEN [st EXCEPT !.chans = DropAt(@, ci)] ELSE RemoveMember(st, ci, nick)
RECURSIVE DoPart(_, _, _)
DoPart(st, nick, chs) ==
    IF chs = <<>> THEN st
    ELSE LET ci == ChanIdx(st, Head(chs)) IN
         DoPart(IF ci = 0 THEN st ELSE Leave(st, ci, nick), nick, Tail(chs))
RECURSIVE DoKick(_, _, _)
DoKick(st, chs, nicks) ==
    IF chs = <<>> \/ nicks = <<>> THEN st
    ELSE LET ci == ChanIdx(st, Head(chs))
             n == StripPrefix(st, Head(nicks))
         IN DoKick(IF ci = 0 \/ NickIdx(st, st.chans[ci], n) = 0 THEN st ELSE Leave(st, ci, Head(nicks)),
                   Tail(chs), Tail(nicks))

DoQuit(st, nick) ==
    [st EXCEPT !.chans = [i \in 1..Len(@) |->
        [@[i] EXCEPT !.nicks = SelectSeq(@, LAMBDA m : ~SameN(st, m.nick, nick))]]]

Rename(st, old, new) ==
    LET st1 == IF IsMe(st, old) THEN [st EXCEPT !.me.nick = new] ELSE st
    IN [st1 EXCEPT !.chans = [i \in 1..Len(@) |->
            [@[i] EXCEPT !.nicks = [j \in 1..Len(@) |->
                IF SameN(st, @[j].nick, old) THEN [@[j] EXCEPT !.nick = new] ELSE @[j]]]]]

(* ---- MODE ---- *)
SetOpt(f, m, v) == [c \in (DOMAIN f) \cup {m} |-> IF c = m THEN v ELSE f[c]]
DelOpt(f, m) == [c \in (DOMAIN f) \ {m} |-> f[c]]
\* args: the parameters not used yet; on: + or -
RECURSIVE ChanModes(_, _, _, _, _, _, _)
ChanModes(st, ci, by, ms, i, on, args) ==
    IF i > Len(ms) THEN st
    ELSE LET m == Ch(ms, i)
             ch == st.chans[ci]
             cls == ModeClass(st, m)
             has == args # <<>>
             rest == IF has THEN Tail(args) ELSE args
         IN IF m = "+" THEN ChanModes(st, ci, by, ms, i + 1, TRUE, args)
            ELSE IF m = "-" THEN ChanModes(st, ci, by, ms, i + 1, FALSE, args)
            ELSE IF cls = "list" THEN
                IF ~has THEN st     \* malformed: the rest cannot be interpreted
                ELSE LET li == IF m \in DOMAIN ch.lists THEN ch.lists[m] ELSE NoList
                         k == FirstIdx(li.entries, LAMBDA x : x[1] = Head(args))
                         li2 == IF ~li.present THEN li
                                ELSE IF on THEN [li EXCEPT !.entries = Append(@, <<Head(args), by>>)]
                                ELSE IF k = 0 THEN li ELSE [li EXCEPT !.entries = DropAt(@, k)]
                         ch2 == IF m \in DOMAIN ch.lists THEN [ch EXCEPT !.lists[m] = li2] ELSE ch
                     IN ChanModes(SetChan(st, ci, ch2), ci, by, ms, i + 1, on, rest)
            ELSE IF cls \in {"setting", "opt"} THEN
                IF on THEN
                    IF ~has THEN st
                    ELSE ChanModes(SetChan(st, ci, [ch EXCEPT !.opts = SetOpt(@, m, Head(args)), !.modes = @ \cup {m}]),
                                   ci, by, ms, i + 1, on, rest)
                ELSE ChanModes(SetChan(st, ci, [ch EXCEPT !.opts = DelOpt(@, m), !.modes = @ \ {m}]),
                               ci, by, ms, i + 1, on, IF cls = "setting" THEN rest ELSE args)
            ELSE IF IsPrefixMode(st, m) THEN
                IF ~has THEN st
                ELSE LET j == NickIdx(st, ch, StripPrefix(st, Head(args))) IN
                     IF j = 0 THEN ChanModes(st, ci, by, ms, i + 1, on, rest)
                     ELSE ChanModes(SetChan(st, ci, [ch EXCEPT !.nicks[j].modes = IF on THEN @ \cup {m} ELSE @ \ {m}]),
                                    ci, by, ms, i + 1, on, rest)
            ELSE IF cls = "bool" THEN
                ChanModes(SetChan(st, ci, [ch EXCEPT !.modes = IF on THEN @ \cup {m} ELSE @ \ {m}]),
                          ci, by, ms, i + 1, on, args)
            ELSE ChanModes(st, ci, by, ms, i + 1, on, rest)   \* unknown: assumed to take a parameter
RECURSIVE FlagModes(_, _, _, _)
FlagModes(set, ms, i, on) ==
    IF i > Len(ms) THEN set
    ELSE LET m == Ch(ms, i) IN
         IF m = "+" THEN FlagModes(set, ms, i + 1, TRUE)
         ELSE IF m = "-" THEN FlagModes(set, ms, i + 1, FALSE)
         ELSE FlagModes(IF on THEN set \cup {m} ELSE set \ {m}, ms, i + 1, on)
\* a complete mode string as in 324/221: replaces what was known
WholeModes(ms) == IF Len(ms) = 0 \/ Ch(ms, 1) \notin {"+", "-"} THEN {} ELSE FlagModes({}, ms, 1, TRUE)
RECURSIVE WholeOpts(_, _, _, _, _)
WholeOpts(st, ms, i, args, f) ==
    IF i > Len(ms) \/ args = <<>> THEN f
    ELSE LET m == Ch(ms, i) IN
         IF ModeClass(st, m) \in {"setting", "opt"} /\ m \notin DOMAIN f
         THEN WholeOpts(st, ms, i + 1, Tail(args), SetOpt(f, m, Head(args)))
         ELSE WholeOpts(st, ms, i + 1, args, f)

(* ---- 005 ---- *)
Token(info, t) ==
    LET i == Index(t, "=")
        key == Up(IF i = 0 THEN t ELSE SubSeq(t, 1, i - 1))
        val == IF i = 0 THEN "" ELSE SubSeq(t, i + 1, Len(t))
    IN CASE key = "CASEMAPPING" /\ i # 0 ->
              [info EXCEPT !.cm = IF Up(val) = "RFC1459" THEN "rfc1459" ELSE IF Up(val) = "STRICT-RFC1459" THEN "strict-rfc1459"
                                  ELSE IF Up(val) = "ASCII" THEN "ascii" ELSE ""]
         [] key = "CHANTYPES" /\ i # 0 -> [info EXCEPT !.chantypes = val]
         [] key = "PREFIX" /\ i # 0 ->
              IF val = "" THEN [info EXCEPT !.pmodes = "", !.psyms = ""]
              ELSE IF Ch(val, 1) # "(" \/ ~Contains(val, ")") THEN info
              ELSE [info EXCEPT !.pmodes = SubSeq(val, 2, Index(val, ")") - 1), !.psyms = After(val, ")")]
         [] key = "CHANMODES" /\ i # 0 ->
              LET q == Split(val, ",") IN
              IF Len(q) < 4 THEN info
              ELSE [info EXCEPT !.cmodes = <<q[1], q[2], q[3], Join(SubSeq(q, 4, Len(q)), ",")>>]
         [] OTHER -> info
RECURSIVE Tokens(_, _)
Tokens(info, ts) == IF ts = <<>> THEN info ELSE Tokens(Token(info, Head(ts)), Tail(ts))

(* ---- lists ---- *)
ListOf == [n \in {346, 347, 348, 349, 367, 368} |-> CASE n \in {346, 347} -> "I" [] n \in {348, 349} -> "e" [] OTHER -> "b"]
ListEntry(st, ci, m, ent) ==
    LET li == st.chans[ci].lists[m]
        old == IF li.started THEN li.entries ELSE <<>>
    IN SetChan(st, ci, [st.chans[ci] EXCEPT !.lists[m] = [li EXCEPT !.started = TRUE, !.entries = Append(old, ent)]])
ListEnd(st, ci, m) ==
    LET li == st.chans[ci].lists[m] IN SetChan(st, ci, [st.chans[ci] EXCEPT !.lists[m] = [@ EXCEPT !.started = FALSE, !.present = TRUE, !.entries = IF li.started THEN @ ELSE <<>>]])

RECURSIVE AddAll(_, _, _)
AddAll(st, ci, ns) == IF ns = <<>> THEN st ELSE AddAll(AddNamed(st, ci, Head(ns)), ci, Tail(ns))
RECURSIVE Hosts302(_, _)
Hosts302(st, ws) ==
    IF ws = <<>> THEN st
    ELSE LET w == Head(ws)
             i == Index(w, "=")
             n0 == IF i = 0 THEN "" ELSE SubSeq(w, 1, i - 1)
             n == IF EndsWith(n0, "*") THEN SubSeq(n0, 1, Len(n0) - 1) ELSE n0
             uh == IF i = 0 THEN "" ELSE SubSeq(w, i + 2, Len(w))
         IN Hosts302(IF i = 0 \/ i = Len(w) \/ ~Contains(uh, "@") THEN st
                     ELSE LearnMask(st, n, n, Before(uh, "@"), After(uh, "@")), Tail(ws))

\* minimal number of parameters a message has to have to mean anything
MinArgs(l) == CASE Cmd(l) \in {"JOIN", "PART", "NICK"} -> 1 [] Cmd(l) \in {"KICK", "TOPIC", "MODE"} -> 2
                [] Respcode(l) \in {1, 305, 306} -> 1 [] Respcode(l) \in {221, 302, 331, 366, 368, 347, 349} -> 2
                [] Respcode(l) \in {5, 324, 329, 332, 346, 348, 367} -> 3 [] Respcode(l) \in {333, 353} -> 4
                [] Respcode(l) = 4 -> 5 [] Respcode(l) = 352 -> 8 [] OTHER -> 0
NeedsOrigin == {"JOIN", "PART", "KICK", "QUIT", "TOPIC", "NICK"}

\* the state after line l, received at time now
Apply(st, l, now) ==
    LET c == Cmd(l)
        r == Respcode(l)
        o == l[1]
        nick == OriginNick(l)
        ci2 == ChanIdx(st, Arg(l, 2))
        ci1 == ChanIdx(st, Arg(l, 1))
    IN
    IF NArgs(l) - 1 < MinArgs(l) \/ (c \in NeedsOrigin /\ o = "") THEN st
    ELSE IF c = "JOIN" THEN IF StripPrefix(st, nick) = "" THEN st ELSE DoJoin(st, o, NonEmpty(Split(Arg(l, 1), ",")))
    ELSE IF c = "PART" THEN DoPart(st, nick, Split(Arg(l, 1), ","))
    ELSE IF c = "KICK" THEN DoKick(st, Split(Arg(l, 1), ","), Split(Arg(l, 2), ","))
    ELSE IF c = "QUIT" THEN DoQuit(st, nick)
    ELSE IF c = "NICK" THEN Rename(st, nick, Arg(l, 1))
    ELSE IF c = "TOPIC" THEN
        IF ci1 = 0 THEN st
        ELSE SetChan(st, ci1, [st.chans[ci1] EXCEPT !.hastopic = TRUE, !.topic = Arg(l, 2), !.by = nick, !.at = now])
    ELSE IF c = "MODE" THEN
        IF IsChanName(st, Arg(l, 1))
        THEN IF ci1 = 0 THEN st
             ELSE ChanModes(st, ci1, nick, Arg(l, 2), 1, TRUE, SubSeq(l, 5, Len(l)))
        ELSE IF IsMe(st, Arg(l, 1)) THEN [st EXCEPT !.umodes = FlagModes(@, Arg(l, 2), 1, TRUE)] ELSE st
    ELSE CASE r = 1 -> Rename(st, st.me.nick, Arg(l, 1))
           [] r = 4 -> [st EXCEPT !.server = Arg(l, 2)]
           [] r = 5 -> [st EXCEPT !.info = Tokens(@, SubSeq(l, 4, Len(l) - 1))]
           [] r = 221 -> [st EXCEPT !.umodes = WholeModes(Arg(l, 2))]
           [] r = 305 -> [st EXCEPT !.away = FALSE]
           [] r = 306 -> [st EXCEPT !.away = TRUE]
           [] r = 302 -> Hosts302(st, Split(Arg(l, 2), " "))
           [] r = 352 -> LearnMask(st, Arg(l, 6), Arg(l, 6), Arg(l, 3), Arg(l, 4))
           [] ci2 # 0 /\ r = 324 ->
                SetChan(st, ci2, [st.chans[ci2] EXCEPT !.modes = WholeModes(Arg(l, 3)), !.got = TRUE,
                    !.opts = WholeOpts(st, Arg(l, 3), 1, SubSeq(l, 6, Len(l)), [x \in {} |-> ""])])
           [] ci2 # 0 /\ r = 329 -> SetChan(st, ci2, [st.chans[ci2] EXCEPT !.created = Num(Arg(l, 3))])
           [] ci2 # 0 /\ r = 331 -> SetChan(st, ci2, [st.chans[ci2] EXCEPT !.hastopic = FALSE, !.topic = ""])
           [] ci2 # 0 /\ r = 332 -> SetChan(st, ci2, [st.chans[ci2] EXCEPT !.hastopic = TRUE, !.topic = Arg(l, 3)])
           [] ci2 # 0 /\ r = 333 -> SetChan(st, ci2, [st.chans[ci2] EXCEPT !.by = Arg(l, 3), !.at = Num(Arg(l, 4))])
           [] r = 353 ->
                LET ci == ChanIdx(st, Arg(l, 3)) IN
                IF ci = 0 THEN st
                ELSE LET ch == st.chans[ci]
                         ch2 == [ch EXCEPT !.vis = IF Arg(l, 2) = "" THEN "" ELSE Ch(Arg(l, 2), 1), !.naming = TRUE,
                                           !.nicks = IF ch.naming THEN @ ELSE <<>>]
                     IN AddAll(SetChan(st, ci, ch2), ci, NonEmpty(Split(Arg(l, 4), " ")))
           [] ci2 # 0 /\ r = 366 -> SetChan(st, ci2, [st.chans[ci2] EXCEPT !.naming = FALSE])
           [] ci2 # 0 /\ r \in {346, 348, 367} ->
                ListEntry(st, ci2, ListOf[r], <<Arg(l, 3), IF r = 367 THEN Arg(l, 4) ELSE "">>)
           [] ci2 # 0 /\ r \in {347, 349, 368} -> ListEnd(st, ci2, ListOf[r])
           [] OTHER -> st

(* What an observer of the state can see, without the order in which things are kept *)
ChanView(ch) ==
    [name |-> ch.name, hastopic |-> ch.hastopic, topic |-> ch.topic, by |-> ch.by, at |-> ch.at, created |-> ch.created,
     modes |-> ch.modes, got |-> ch.got, opts |-> {<<m, ch.opts[m]>> : m \in DOMAIN ch.opts},
     lists |-> {<<m, ch.lists[m].present, Len(ch.lists[m].entries), {ch.lists[m].entries[i][1] : i \in 1..Len(ch.lists[m].entries)}>> : m \in DOMAIN ch.lists},
     nnicks |-> Len(ch.nicks), nicks |-> {<<ch.nicks[i].nick, ch.nicks[i].modes>> : i \in 1..Len(ch.nicks)}]
View(st) == [me |-> st.me, umodes |-> st.umodes, away |-> st.away, nchans |-> Len(st.chans),
             chans |-> {ChanView(st.chans[i]) : i \in 1..Len(st.chans)}]

\* the same from a recorded dump
RecChan(d) ==
    [name |-> d.name, hastopic |-> d.hastopic, topic |-> d.topic, by |-> d.by, at |-> d.at, created |-> d.created,
     modes |-> CharSet(d.modes), got |-> d.got, opts |-> {<<d.opts[i][1], d.opts[i][2]>> : i \in 1..Len(d.opts)},
     lists |-> {<<d.lists[k][1], d.lists[k][2], Len(d.lists[k][3]), {d.lists[k][3][i][1] : i \in 1..Len(d.lists[k][3])}>> : k \in 1..Len(d.lists)},
     nnicks |-> Len(d.nicks), nicks |-> {<<d.nicks[i][1], CharSet(d.nicks[i][2])>> : i \in 1..Len(d.nicks)}]
RecView(d) == [me |-> [nick |-> d.me[1], user |-> d.me[2], host |-> d.me[3]], umodes |-> CharSet(d.umodes), away |-> d.away,
               nchans |-> Len(d.chans), chans |-> {RecChan(d.chans[i]) : i \in 1..Len(d.chans)}]
\* who added a list entry may be unknown, but is never wrong
SettersOk(st, d) ==
    \A i \in 1..Len(d.chans) : \A k \in 1..Len(d.chans[i].lists) :
        LET ls == d.chans[i].lists[k]
            ci == ChanIdx(st, d.chans[i].name)
        IN ci # 0 => \A e \in Range(ls[3]) : e[2] # "" =>
              \E x \in Range(st.chans[ci].lists[ls[1]].entries) : x[1] = e[1] /\ Same(st.info.cm, x[2], e[2])
\* names the fields in which the two differ (for the report)
Diff(a, b) == {f \in DOMAIN a : a[f] # b[f]}
=============================================================================
