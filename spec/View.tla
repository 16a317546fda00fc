-------------------------------- MODULE View --------------------------------
(* What a client makes of the lines it is sent, and when that is right.       *)
EXTENDS Mux

Blank == InitState("", "", "")
\* a client that sees itself join again a channel it was in when the connection was lost starts that channel from nothing
Forget(v, name) == LET i == ChanIdx(v, name) IN IF i = 0 THEN v ELSE [v EXCEPT !.chans = DropAt(@, i)]
RECURSIVE ForgetAll(_, _)
ForgetAll(v, names) == IF names = <<>> THEN v ELSE ForgetAll(Forget(v, Head(names)), Tail(names))
\* stale: folded names of the channels it was in when the connection was lost
RECURSIVE LearnAll(_, _, _, _)
LearnAll(v, stale, ls, now) ==
    IF ls = <<>> THEN [v |-> v, stale |-> stale]
    ELSE LET l == Head(ls)
             joins == Cmd(l) = "JOIN" /\ HasArg(l, 1) /\ l[1] # "" /\ IsMe(v, OriginNick(l))
             again == IF joins THEN SelectSeq(Split(Arg(l, 1), ","), LAMBDA n : Fold(v.info.cm, n) \in stale) ELSE <<>>
         IN LearnAll(Apply(ForgetAll(v, again), l, now), stale \ {Fold(v.info.cm, again[i]) : i \in 1..Len(again)}, Tail(ls), now)

Folded(st, S) == {Fold(st.info.cm, n) : n \in S}
Members(st, ch) == Folded(st, {ch.nicks[i].nick : i \in 1..Len(ch.nicks)})
\* the highest status of a member: all that a list of names can tell
RECURSIVE Highest(_, _, _)
Highest(st, modes, i) ==
    IF i > Len(st.info.pmodes) THEN "" ELSE IF Ch(st.info.pmodes, i) \in modes THEN Ch(st.info.pmodes, i) ELSE Highest(st, modes, i + 1)
Ranks(st, ch) == {<<Fold(st.info.cm, ch.nicks[i].nick), Highest(st, ch.nicks[i].modes, 1)>> : i \in 1..Len(ch.nicks)}
Names(st) == Folded(st, {st.chans[i].name : i \in 1..Len(st.chans)})

SameChannel(st, ch, v, vc) ==
    /\ Members(st, ch) = Members(v, vc)
    /\ ch.topic = vc.topic      \* a topic that was removed is no topic
\* the client's view v against the tracked state st; stale: channels it was in when the connection was lost
Coherent(st, v, stale) ==
    /\ SameN(st, v.me.nick, st.me.nick)
    /\ \A i \in 1..Len(st.chans) :
         LET ch == st.chans[i] k == ChanIdx(v, ch.name) IN k # 0 /\ SameChannel(st, ch, v, v.chans[k])
    /\ \A k \in 1..Len(v.chans) :
         OnChan(st, v.chans[k].name) \/ Fold(v.info.cm, v.chans[k].name) \in stale
\* everybody else is gone
Alone(v) == \A k \in 1..Len(v.chans) : Members(v, v.chans[k]) \subseteq {Fold(v.info.cm, v.me.nick)}
\* right after attaching, the client knows the details too (not when a topic was set if it is told by repeating that line)
Exact(st, v, replayed) ==
    /\ Coherent(st, v, {})
    /\ v.umodes = st.umodes
    /\ \A i \in 1..Len(st.chans) :
         LET ch == st.chans[i] vc == v.chans[ChanIdx(v, ch.name)] IN
         /\ Ranks(st, ch) = Ranks(v, vc)
         /\ (ch.topic # "" /\ ch.by # "" /\ ch.at # 0 => vc.by = ch.by /\ (replayed \/ vc.at = ch.at))

(* ---- the lines that bring a client up to date ---- *)
NameOf(st, m) == LET h == Highest(st, m.modes, 1) IN IF h = "" THEN m.nick ELSE Ch(st.info.psyms, Index(st.info.pmodes, h)) \o m.nick
NamesList(st, ch) == Join([i \in 1..Len(ch.nicks) |-> NameOf(st, ch.nicks[i])], " ")
Str(n) == ToString(n)
ChanLines(st, me, ch) ==
    <<<<Mask(me), "JOIN", ch.name>>>>
    \o (IF ch.topic # "" THEN <<<<"netA", "332", me.nick, ch.name, ch.topic>>>> ELSE <<>>)
    \o (IF ch.topic # "" /\ ch.by # "" /\ ch.at # 0 THEN <<<<"netA", "333", me.nick, ch.name, ch.by, Str(ch.at)>>>> ELSE <<>>)
    \o (IF ch.nicks # <<>> THEN <<<<"netA", "353", me.nick, "=", ch.name, NamesList(st, ch)>>>> ELSE <<>>)
    \o <<<<"netA", "366", me.nick, ch.name, "End of /NAMES list">>>>
RECURSIVE AllChanLines(_, _, _)
AllChanLines(st, me, chs) == IF chs = <<>> THEN <<>> ELSE ChanLines(st, me, Head(chs)) \o AllChanLines(st, me, Tail(chs))
RECURSIVE Letters(_, _, _)
Letters(S, abc, i) == IF i > Len(abc) THEN "" ELSE (IF Ch(abc, i) \in S THEN Ch(abc, i) ELSE "") \o Letters(S, abc, i + 1)
Snapshot(st, me) ==
    (IF me.nick # st.me.nick THEN <<<<Mask(me), "NICK", st.me.nick>>>> ELSE <<>>)
    \o AllChanLines(st, [me EXCEPT !.nick = st.me.nick], st.chans)
    \o (IF st.umodes # {} THEN <<<<st.me.nick, "MODE", st.me.nick, "+" \o Letters(st.umodes, "abcdefghijklmnopqrstuvwxyz", 1)>>>> ELSE <<>>)
Greeting(nick) == <<<<"netA", "001", nick, "Welcome to the ctrlproxy">>>>
\* everybody the client knows about leaves
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Netsplit(v) ==
    LET others == {n \in UNION {Members(v, v.chans[k]) : k \in 1..Len(v.chans)} : n # Fold(v.info.cm, v.me.nick)}
        ns == SeqOf(others)
    IN [i \in 1..Len(ns) |-> <<ns[i] \o "!~UNKNOWN@UNKNOWN", "QUIT", "proxy server">>]
=============================================================================
