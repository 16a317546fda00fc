----------------------------- MODULE ServicesMC -----------------------------
EXTENDS Services, Json
CONSTANTS Depth, Gen, LearnOn
VARIABLES W, S, hist

cfg == [n \in {"A", "B"} |-> [report |-> FALSE, offset |-> 0, autocmd |-> <<>>, join |-> <<>>]]
ME == "me!user@proxy.host"
YOU == "you!user@proxy.host"
Alphabet ==
    {<<"srv", "A", l>> : l \in {<<ME, "NICK", "you">>, <<YOU, "NICK", "me">>, <<"al!x@y", "NICK", "you">>, <<"al!x@y", "NICK", "me">>, <<"me", "MODE", "me", "+R">>, <<"you", "MODE", "you", "-R">>,
                                <<"irc.A", "376", "me", "End">>}}
    \cup {<<"cli", c, l>> : c \in {"c1"}, l \in {<<"", "PRIVMSG", "NickServ", "IDENTIFY p1">>, <<"", "PRIVMSG", "nickserv", "identify p2">>, <<"", "NS", "IDENTIFY", "p3">>,
                                                  <<"", "PRIVMSG", "al", "IDENTIFY p4">>, <<"", "PRIVMSG", "NickServ", "REGISTER p5">>, <<"", "NICK", "you">>}}
    \cup {<<"cli", "c2", <<"", "PRIVMSG", "NickServ", "IDENTIFY q1">>>>}
    \cup {<<"lost", "A">>, <<"save">>, <<"detach", "c1">>}
K0 == <<[net |-> "*", nick |-> "you", pass |-> "k1"], [net |-> "B", nick |-> "me", pass |-> "k2"]>>
Up0 == LET up(n) == FromServer(Connected([nets |-> [x \in {"A", "B"} |-> [st |-> InitState("", "", ""), phase |-> "off", q |-> <<>>, order |-> <<>>]],
                                         cl |-> [c \in {} |-> 0]], n, "me", "user", "proxy.host").w, cfg, n, <<"irc.A", "376", "me", "End">>, 0).w.nets[n]
       IN [nets |-> [n \in {"A", "B"} |-> up(n)], cl |-> [c \in {} |-> 0]]
W0 == Attach(Attach(Up0, cfg, "c1", "A", "me", "c1", "localhost").w, cfg, "c2", "B", "me", "c2", "localhost").w
Init == W = W0 /\ S = [keys |-> K0, learn |-> LearnOn] /\ hist = <<>>
Attached(c) == c \in DOMAIN W.cl /\ W.cl[c].net # NONE
Enabled(op) ==
    CASE op[1] \in {"detach", "cli"} -> Attached(op[2])
      [] op[1] = "lost" -> W.nets[op[2]].phase = "up"
      [] OTHER -> TRUE
In(op) == CASE op[1] = "srv" -> ServicesFromServer(W, cfg, S, op[2], op[3], 0)
            [] op[1] = "cli" -> ServicesFromClient(W, cfg, S, op[2], op[3], 0)
            [] op[1] = "detach" -> [w |-> Detach(W, op[2]), out |-> NoOut(W), s |-> S]
            \* lost and connected again
            [] op[1] = "lost" -> [w |-> Connected(Lost(W, op[2]).w, op[2], "me", "user", "proxy.host").w, out |-> NoOut(W), s |-> S]
            [] OTHER -> [w |-> W, out |-> NoOut(W), s |-> S]
Next ==
    /\ Len(hist) < Depth
    /\ \E op \in Alphabet :
        /\ Enabled(op)
        /\ W' = In(op).w /\ S' = In(op).s
        /\ hist' = Append(hist, op)
        /\ IF Gen THEN PrintT(ToJson(hist')) ELSE TRUE
vars == <<W, S, hist>>
Spec == Init /\ [][Next]_vars
Vw == <<W, S>>

(* ---- said without the machinery above ---- *)
LastOp == hist'[Len(hist')]
R == In(LastOp)
HasId(l) == Len(l) >= 4 /\ StartsWith(l[4], "IDENTIFY")
Sent(n) == SelectSeq(R.out.srv[n], LAMBDA x : HasId(x))
Known(n) == \E k \in Range(S.keys) : k.net \in {"*", n} /\ Same("", k.nick, R.w.nets[n].st.me.nick)
StepOk ==
    LET op == LastOp IN
    /\ ~S.learn => S'.keys = S.keys
    \* what is known of other nicks and networks stays
    /\ \A k \in Range(S.keys) : k \in Range(S'.keys) \/ (op[1] = "cli" /\ Same("", k.nick, W.nets[W.cl[op[2]].net].st.me.nick) /\ k.net = W.cl[op[2]].net)
    /\ \A n \in DOMAIN W.nets : ~(op[1] \in {"srv", "cli"} /\ n = (IF op[1] = "srv" THEN op[2] ELSE W.cl[op[2]].net)) => R.out.srv[n] = <<>>
    /\ (op[1] = "srv" =>
          LET n == op[2] ends == W.nets[n].phase = "login" /\ W'.nets[n].phase = "up"
              mine == Len(op[3]) > 2 /\ op[3][2] = "NICK" /\ W.nets[n].phase = "up" /\ W.nets[n].st.me.nick = Before(op[3][1], "!") IN
          IF (ends \/ mine) /\ Known(n) /\ "R" \notin W'.nets[n].st.umodes
          THEN /\ Len(Sent(n)) = 1 /\ Sent(n)[1][3] = "NickServ"
               /\ \E k \in Range(S.keys) : /\ k.net \in {"*", n} /\ Same("", k.nick, W'.nets[n].st.me.nick) /\ Sent(n)[1][4] = "IDENTIFY " \o k.pass
          ELSE Sent(n) = <<>>)
    \* what was learnt last is what will be used
    /\ (op[1] = "cli" /\ S.learn /\ op[3][2] \in {"PRIVMSG", "NS"} /\ Up(op[3][3]) \in {"NICKSERV", "IDENTIFY"} /\ W.nets[W.cl[op[2]].net].phase = "up" =>
          (\A p \in {"p1", "p2", "p3", "q1"} : (op[3][4] = p \/ StartsWith(op[3][4], "IDENTIFY " \o p) \/ StartsWith(op[3][4], "identify " \o p)) =>
              Find(S'.keys, "", W.cl[op[2]].net, W.nets[W.cl[op[2]].net].st.me.nick) = <<p>>))
Steps == [][StepOk]_vars
=============================================================================
