------------------------------ MODULE Services ------------------------------
(* Identification to NickServ, on top of Mux.tla.                            *)
(* S = [keys, learn]: keys is a sequence of [net, nick, pass], net "*" for    *)
(* an entry that holds on every network.                                      *)
EXTENDS Mux

SERVICES == "NickServ"
SameNet(a, b) == Up(a) = Up(b)
FirstKey(q, T(_)) == LET I == {i \in 1..Len(q) : T(q[i])} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
\* the password for a nick on a network: one for the network comes before one for all
Find(keys, cm, net, nick) ==
    LET a == FirstKey(keys, LAMBDA k : k.net # "*" /\ SameNet(k.net, net) /\ Same(cm, k.nick, nick))
        b == FirstKey(keys, LAMBDA k : k.net = "*" /\ Same(cm, k.nick, nick))
    IN IF a # 0 THEN <<keys[a].pass>> ELSE IF b # 0 THEN <<keys[b].pass>> ELSE <<>>
\* an entry for all networks that has the very password needs no other one, unless the network's own comes first
Learn(S, cm, net, nick, pass) ==
    IF ~S.learn THEN S
    ELSE LET k == FirstKey(S.keys, LAMBDA x : Same(cm, x.nick, nick) /\ (IF x.net = "*" THEN x.pass = pass ELSE SameNet(x.net, net)))
         IN IF k = 0 THEN [S EXCEPT !.keys = <<[net |-> net, nick |-> nick, pass |-> pass]>> \o @]
            ELSE [S EXCEPT !.keys[k].pass = pass]
\* the password a line for the server gives away
IdPrefix(t) == Len(t) >= 9 /\ Up(SubSeq(t, 1, 9)) = "IDENTIFY "
Given(cm, l) ==
    IF Cmd(l) \in {"PRIVMSG", "NOTICE"} /\ HasArg(l, 2) /\ Same(cm, Arg(l, 1), SERVICES) /\ IdPrefix(Arg(l, 2))
    THEN <<SubSeq(Arg(l, 2), 10, Len(Arg(l, 2)))>>
    ELSE IF Cmd(l) = "NS" /\ HasArg(l, 2) /\ Up(Arg(l, 1)) = "IDENTIFY" THEN <<Arg(l, 2)>>
    ELSE <<>>
RECURSIVE LearnAll(_, _, _, _, _)
LearnAll(S, cm, net, nick, ls) ==
    IF ls = <<>> THEN S
    ELSE LET g == Given(cm, Head(ls))
         IN LearnAll(IF g = <<>> THEN S ELSE Learn(S, cm, net, nick, g[1]), cm, net, nick, Tail(ls))
Identify(S, st, net) ==
    LET p == Find(S.keys, st.info.cm, net, st.me.nick)
    IN IF p = <<>> \/ "R" \in st.umodes THEN <<>> ELSE <<<<"", "PRIVMSG", SERVICES, "IDENTIFY " \o p[1]>>>>

LoginEnds(W, n, l) == W.nets[n].phase = "login" /\ Respcode(l) \in {376, 422}
NickTaken(W, n, l, st2) ==
    /\ W.nets[n].phase = "up" /\ Cmd(l) = "NICK" /\ HasArg(l, 1) /\ l[1] # ""
    /\ Same(W.nets[n].st.info.cm, OriginNick(l), W.nets[n].st.me.nick) /\ st2.me.nick = Arg(l, 1)
ServicesFromServer(W, cfg, S, n, l, now) ==
    LET r == FromServer(W, cfg, n, l, now)
        st2 == r.w.nets[n].st
        id == IF LoginEnds(W, n, l) \/ NickTaken(W, n, l, st2) THEN Identify(S, st2, n) ELSE <<>>
        to == id \o r.out.srv[n]
    IN [w |-> r.w, out |-> [r.out EXCEPT !.srv[n] = to], s |-> LearnAll(S, st2.info.cm, n, st2.me.nick, to)]
ServicesFromClient(W, cfg, S, c, l, now) ==
    LET r == FromClient(W, cfg, c, l, now)
        n == W.cl[c].net
        st == W.nets[n].st
    IN [w |-> r.w, out |-> r.out, s |-> LearnAll(S, st.info.cm, n, st.me.nick, r.out.srv[n])]
=============================================================================
