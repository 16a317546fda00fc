------------------------------- MODULE MuxMC -------------------------------
(* Two clients on network A, one on network B: all interleavings of queries,  *)
(* replies, conversation, attaching and detaching.                            *)
EXTENDS Mux, Json
CONSTANTS Which, Depth, Gen
VARIABLES W, hist, ask, fin

S == "irc.A"
AL == "al!x@y"
cfg == [n \in {"A", "B"} |-> [report |-> FALSE, offset |-> 0, autocmd |-> <<>>, join |-> <<>>]]
Srv(n, l) == <<"srv", n, l>>
Cli(c, l) == <<"cli", c, l>>
HOME == [c1 |-> "A", c2 |-> "A", c3 |-> "B"]
OthersNick == [c1 |-> "me", c2 |-> "you", c3 |-> "me"]
Attaches == {<<"attach", c, HOME[c], OthersNick[c], c>> : c \in DOMAIN HOME}
Detaches == {<<"detach", c>> : c \in DOMAIN HOME}
Queries_ ==
  {Cli(c, l) : c \in {"c1", "c2"}, l \in {<<"", "WHOIS", "al">>, <<"", "WHO", "x">>, <<"", "MODE", "#a">>, <<"", "MOTD">>, <<"", "TOPIC", "#a">>,
                                          <<"", "TOPIC", "#a", "new">>, <<"", "FROB", "x">>}}
Replies ==
  {Srv("A", l) : l \in {<<S, "311", "me", "al", "x", "y", "*", "R">>, <<S, "318", "me", "al", "End">>, <<S, "401", "me", "al", "No">>, <<S, "315", "me", "x", "End">>,
                        <<S, "352", "me", "#a", "u", "h", S, "me", "H", "0 R">>, <<S, "324", "me", "#a", "+n">>, <<S, "332", "me", "#a", "top">>, <<S, "403", "me", "#a", "No">>,
                        <<S, "263", "me", "x", "busy">>, <<S, "402", "me", "x", "No">>, <<S, "421", "me", "FROB", "Unknown">>, <<S, "372", "me", "motd">>, <<S, "376", "me", "End">>,
                        <<S, "433", "me", "z", "used">>, <<S, "999", "me", "odd">>, <<S, "464", "me", "pw">>}}
Talk ==
  {Srv(n, l) : n \in {"A", "B"}, l \in {<<AL, "PRIVMSG", "me", "hi">>, <<AL, "NOTICE", "#a", "x y">>, <<"me!user@proxy.host", "JOIN", "#a">>, <<AL, "PRIVMSG", "me", "\tACTION waves\t">>}}
  \cup {Cli(c, l) : c \in DOMAIN HOME, l \in {<<"", "PRIVMSG", "#a", "one two">>, <<"", "NOTICE", "al", "z">>, <<"", "JOIN", "#a">>, <<"", "PRIVMSG", "al", "\tACTION x\t">>, <<"q!r@s", "PRIVMSG", "al", ":c">>}}
Ctcp ==
  {Srv("A", l) : l \in {<<AL, "PRIVMSG", "me", "\tVERSION\t">>, <<AL, "PRIVMSG", "me", "\tPING 12\t">>, <<AL, "PRIVMSG", "#a", "\tFROB\t">>, <<AL, "PRIVMSG", "me", "\t">>, <<AL, "PRIVMSG", "me", "\t\t">>,
                        <<AL, "PRIVMSG", "me", "\tACTION dances\t">>, <<AL, "PRIVMSG", "me", "\tversion">>, <<"", "PRIVMSG", "me", "\tTIME\t">>, <<AL, "NOTICE", "me", "\tVERSION x\t">>, <<AL, "NOTICE", "me", "plain">>}}
  \cup {Cli(c, l) : c \in {"c1", "c2"}, l \in {<<"", "PRIVMSG", "al", "\tVERSION\t">>, <<"", "NOTICE", "al", "\tVERSION me\t">>, <<"", "PRIVMSG", "al", "\tACTION x\t">>, <<"", "PRIVMSG", "al", "text">>}}
Ident ==
  {Srv("A", l) : l \in {<<"me!user@proxy.host", "NICK", "you">>, <<"you!user@proxy.host", "NICK", "me">>, <<"me!real@far", "JOIN", "#a">>, <<"you!real@far", "PRIVMSG", "#a", "hi">>, <<"me", "PRIVMSG", "#a", "hi">>,
                        <<AL, "NICK", "bo">>, <<"bo!x@y", "PRIVMSG", "me", "a">>, <<S, "302", "me", "me=+user@far al=+x@y me*=-q@r">>, <<S, "352", "me", "#a", "user", "far", S, "ME", "H", "0 R">>,
                        <<S, "311", "me", "me", "user", "far", "*", "R">>, <<S, "311", "me", "al", "x", "y", "*", "R">>, <<S, "314", "me", "you", "user", "far", "*", "R">>, <<S, "314", "me", "me">>, <<"me!user@proxy.host", "QUIT", "x">>}}
  \cup {Cli(c, l) : c \in {"c1", "c2"}, l \in {<<"me!q@r", "PRIVMSG", "al", "x">>, <<"", "WHOIS", "me">>, <<"", "NICK", "you">>}}
Pings ==
  {Srv("A", l) : l \in {<<"", "PING", "tok">>, <<S, "PING", "a b">>, <<"", "PING">>, <<S, "PONG", "x">>, <<"", "PING", ":x", "y">>}}
  \cup {Cli(c, l) : c \in {"c1", "c2"}, l \in {<<"", "PING", "t1">>, <<"", "PING">>, <<"", "PONG", "x">>, <<"", "PONG">>, <<"", "PING", "a", "b">>}}
Alphabet == (CASE Which = "P03" -> Queries_ \cup Replies [] Which = "P04" -> Talk [] Which = "P14" -> Ctcp [] Which = "P13" -> Pings [] OTHER -> Ident)
            \cup Attaches \cup Detaches

W0 == LET up(n) == FromServer(Connected([nets |-> [x \in {"A", "B"} |-> [st |-> InitState("", "", ""), phase |-> "off", q |-> <<>>, order |-> <<>>]],
                                         cl |-> [c \in {} |-> 0]], n, "me", "user", "proxy.host").w, cfg, n, <<S, "376", "me", "End">>, 0).w.nets[n]
      IN [nets |-> [n \in {"A", "B"} |-> up(n)], cl |-> [c \in {} |-> 0]]
Zero == [c \in DOMAIN HOME |-> 0]
Init == W = W0 /\ hist = <<>> /\ ask = Zero /\ fin = Zero
Attached(V, c) == c \in DOMAIN V.cl /\ V.cl[c].net # NONE
Enabled(op) ==
    CASE op[1] = "attach" -> op[2] \notin DOMAIN W.cl
      [] op[1] \in {"detach", "cli"} -> Attached(W, op[2])
      [] OTHER -> TRUE
Run(op) ==
    CASE op[1] = "srv" -> FromServer(W, cfg, op[2], op[3], 0)
      [] op[1] = "cli" -> FromClient(W, cfg, op[2], op[3], 0)
      [] op[1] = "attach" -> Attach(W, cfg, op[2], op[3], op[4], op[5], "localhost")
      [] OTHER -> [w |-> Detach(W, op[2]), out |-> [NoOut(W) EXCEPT !.loose = {op[2]}]]
Finals(out, l) == {c \in DOMAIN out.cl : Len(out.cl[c]) = 1}
Next ==
    /\ Len(hist) < Depth
    /\ \E op \in Alphabet :
        /\ Enabled(op)
        /\ LET r == Run(op) IN
           /\ W' = r.w
           /\ ask' = IF op[1] = "cli" /\ Len(r.w.nets["A"].q) > Len(W.nets["A"].q) THEN [ask EXCEPT ![op[2]] = @ + 1] ELSE ask
           /\ fin' = IF op[1] = "srv" /\ Len(r.w.nets["A"].q) < Len(W.nets["A"].q)
                     THEN LET c == W.nets["A"].q[Oldest(W.nets["A"].q, Respcode(op[3]))].c IN [fin EXCEPT ![c] = @ + 1] ELSE fin
           /\ hist' = Append(hist, op)
        /\ IF Gen THEN PrintT(ToJson(hist')) ELSE TRUE
vars == <<W, hist, ask, fin>>
Spec == Init /\ [][Next]_vars
Vw == <<W, ask, fin>>

(* ---- what must hold of every step, said without the machinery above ---- *)
LastOp == hist'[Len(hist')]
R == Run(LastOp)
Seen(c) == Len(R.out.cl[c])
Here(n) == {c \in DOMAIN R.out.cl : c \in Range(R.w.nets[n].order) \cup Range(IF n \in DOMAIN W.nets THEN W.nets[n].order ELSE <<>>)}
StepOk ==
    LET op == LastOp IN
    CASE op[1] = "srv" ->
           LET n == op[2] l == op[3]
               there == Range(W.nets[n].order)
               rcv == {c \in DOMAIN R.out.cl : Seen(c) > 0}
           IN /\ rcv \subseteq there /\ \A c \in rcv : Seen(c) = 1
              /\ (Cmd(l) \in {"PING", "PONG"} => rcv = {} /\ Len(R.out.srv[n]) = (IF Cmd(l) = "PING" THEN 1 ELSE 0))
              /\ (Cmd(l) \in {"PRIVMSG", "NOTICE", "JOIN", "NICK", "QUIT"} => rcv = there)
              /\ (Respcode(l) # 0 => rcv \in {{}, there} \cup {{c} : c \in there})
              \* a reply in the interest of one client only: it asked something of that kind before
              /\ (Respcode(l) # 0 /\ rcv # there /\ rcv # {} => \A c \in rcv : ask[c] > fin[c])
              /\ (there # {} => R.out.srv[n] = <<>> \/ Cmd(l) = "PING")
              /\ Len(R.out.srv[n]) <= 1
      [] op[1] = "cli" ->
           LET c == op[2] n == W.cl[c].net l == op[3]
               rcv == {x \in DOMAIN R.out.cl : Seen(x) > 0}
           IN /\ (Cmd(l) \notin {"PING", "PONG"} => Len(R.out.srv[n]) = 1 /\ Tail(R.out.srv[n][1]) = Tail(l) /\ c \notin rcv)
              /\ (Cmd(l) \in {"PING", "PONG"} => R.out.srv[n] = <<>> /\ rcv \subseteq {c})
              /\ \A m \in DOMAIN W.nets \ {n} : R.out.srv[m] = <<>>
              /\ rcv \subseteq Range(W.nets[n].order)
              /\ (Cmd(l) \in {"PRIVMSG", "NOTICE"} /\ (~IsCtcp(l) \/ IsAction(l)) => rcv = Range(W.nets[n].order) \ {c})
              /\ (Cmd(l) \notin {"PRIVMSG", "NOTICE", "PING", "PONG"} \/ CtcpRequest(l) \/ CtcpReply(l) => rcv = {})
      [] OTHER -> \A c \in DOMAIN R.out.cl : Seen(c) = 0
\* what the user is called never differs between clients and network while logged in
IdOk == \A c \in DOMAIN W.cl : W.cl[c].net # NONE =>
          Same("", W.cl[c].me.nick, W.nets[W.cl[c].net].st.me.nick) /\ W.cl[c].me.user = c /\ W.cl[c].me.host = "localhost"
NoOrigins == \A n \in DOMAIN R.out.srv : \A i \in 1..Len(R.out.srv[n]) : R.out.srv[n][i][1] = ""
\* every line shown that carries the user's nick carries the receiving client's identity
ShownOk == \A c \in DOMAIN R.out.cl : \A i \in 1..Len(R.out.cl[c]) :
    LET x == R.out.cl[c][i] IN
    (x[1] # "" /\ c \in DOMAIN W.cl /\ Same("", OriginNick(x), W.cl[c].me.nick)) => x[1] = Mask(W.cl[c].me)
Steps == [][StepOk /\ NoOrigins /\ ShownOk]_vars
QueueOk == \A i \in 1..Len(W.nets["A"].q) : W.nets["A"].q[i].c \in DOMAIN HOME
Conserve == \A c \in DOMAIN HOME : ask[c] - fin[c] = Cardinality({i \in 1..Len(W.nets["A"].q) : W.nets["A"].q[i].c = c})
=============================================================================
