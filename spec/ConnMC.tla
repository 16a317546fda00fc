------------------------------- MODULE ConnMC -------------------------------
(* All histories of one network with two servers: losing and establishing     *)
(* connections, silence, and what the user asks for.  The ghost variables     *)
(* say independently which connections are open (G.open), which channels the  *)
(* user was in when a session ended (G.chans), and how often each connection  *)
(* was logged in to.                                                          *)
EXTENDS Conn, Json
CONSTANTS Which, Depth, Gen
VARIABLES C, G, now, hist

ME == "me!user@proxy.host"
S == "irc.a"
Servers == <<[port |-> 6000, pass |-> ""], [port |-> 6001, pass |-> "spw"]>>
Conf == <<[name |-> "#auto", key |-> "k1", auto |-> TRUE], [name |-> "#not", key |-> "", auto |-> FALSE]>>
C0 == Fresh(Servers, 10, "me", "user", "Real Name", "proxy.host", "", <<<<"", "MODE", "me", "+i">>>>, Conf)
G0 == [open |-> {}, users |-> [k \in {} |-> 0], in |-> {}, want |-> {"#auto"}, nick |-> "me", conf |-> "me", login |-> "", up |-> FALSE, joined |-> <<>>]

Lines == {<<S, "376", "me", "End">>, <<S, "433", "*", "me", "in use">>, <<ME, "JOIN", "#auto">>, <<ME, "JOIN", "#c">>, <<ME, "PART", "#auto">>,
          <<S, "MODE", "#c", "+k", "key">>, <<"", "PING", "t">>}
Session == {<<S, "376", "me", "End">>, <<"me_!user@proxy.host", "JOIN", "#c">>, <<ME, "JOIN", "#C">>, <<ME, "JOIN", "#d">>, <<ME, "JOIN", "#Auto">>, <<ME, "PART", "#c">>,
            <<"op!o@h", "KICK", "#auto", "me", "out">>, <<S, "MODE", "#c", "-k", "*">>, <<S, "MODE", "#auto", "+k", "k2">>, <<S, "324", "me", "#c", "+k", "key">>, <<ME, "NICK", "you">>,
            <<S, "433", "*", "me", "in use">>, <<"al!a@b", "JOIN", "#e">>, <<ME, "QUIT", "bye">>}
Talk == {<<S, "PONG", "irc.a", "ctrlproxy">>, <<"al!a@b", "PRIVMSG", "#x", "hi">>, <<"", "PING", "t">>, <<S, "376", "me", "End">>}
Ops == IF Which = "P10" THEN {<<"srv", ln>> : ln \in Session} \cup {<<"close">>, <<"tick", 10>>, <<"disconnect">>, <<"connect">>}
       ELSE IF Which = "P13" THEN {<<"srv", ln>> : ln \in Talk} \cup {<<"close">>, <<"connect">>} \cup {<<"tick", n>> : n \in {1, 4, 5, 58, 59, 60, 61, 120, 121}}
       ELSE {<<"srv", ln>> : ln \in Lines}
       \cup {<<"close">>, <<"finish", TRUE>>, <<"finish", FALSE>>, <<"connect">>, <<"disconnect">>, <<"next">>}
       \cup {<<"port", p, m>> : p \in {6000, 6001}, m \in {"pending", "refuse"}} \cup {<<"port", 6000, "ok">>}
       \cup {<<"tick", n>> : n \in {10, 60, 130}}
Enabled(op) ==
    CASE op[1] \in {"srv", "close"} -> C.phase = "live"
      [] op[1] = "finish" -> C.phase = "pending"
      [] op[1] = "port" -> LET p == IF op[2] \in DOMAIN C.ports THEN C.ports[op[2]] ELSE "ok" IN p # (IF op[3] = "refuse" THEN "no" ELSE op[3])
      [] op[1] = "tick" -> C.phase # "off" \/ op[2] = 60
      [] op[1] = "connect" -> Which = "P09" \/ C.phase = "off"
      [] OTHER -> TRUE
Result(op) ==
    LET o == NothingOut IN
    CASE op[1] = "srv" -> Heard(C, o, op[2], now)
      [] op[1] = "close" -> Failed(C, o, now)
      [] op[1] = "finish" -> IF op[2] THEN Established(C, o, now) ELSE Failed(C, o, now)
      [] op[1] = "connect" -> AskConnect(C, o, now)
      [] op[1] = "disconnect" -> AskDisconnect(C, o)
      [] op[1] = "next" -> AskNext(C, o, now)
      [] op[1] = "port" -> [c |-> [C EXCEPT !.ports = [p \in DOMAIN @ \cup {op[2]} |-> IF p = op[2] THEN (IF op[3] = "refuse" THEN "no" ELSE op[3]) ELSE @[p]]], o |-> o]
      [] OTHER -> Pass(C, o, now, now + op[2])

\* what really is so, from the lines and connections seen alone
JoinsIn(o) == LET s == SelectSeq(o.lines, LAMBDA x : x[2][2] = "JOIN") IN [i \in 1..Len(s) |-> s[i][2]]
UsersOf(o, k) == Cardinality({i \in 1..Len(o.lines) : o.lines[i][1] = k /\ o.lines[i][2][2] = "USER"})
Ghost(op, o) ==
    LET mine == op[1] = "srv" /\ C.phase = "live" /\ Before(op[2][1], "!") = G.nick
        g1 == IF mine /\ op[2][2] = "JOIN" THEN [G EXCEPT !.in = @ \cup {Fold("", op[2][3])}]
              ELSE IF mine /\ op[2][2] = "PART" THEN [G EXCEPT !.in = @ \ {Fold("", op[2][3])}]
              ELSE IF mine /\ op[2][2] = "NICK" THEN [G EXCEPT !.nick = op[2][3]]
              ELSE IF op[1] = "srv" /\ op[2][2] = "KICK" /\ op[2][4] = G.nick THEN [G EXCEPT !.in = @ \ {op[2][3]}]
              ELSE IF op[1] = "srv" /\ op[2][2] = "433" /\ ~G.up THEN [G EXCEPT !.nick = op[2][4] \o "_"]
              ELSE IF op[1] = "srv" /\ op[2][2] = "376" /\ ~G.up THEN [G EXCEPT !.up = TRUE] ELSE G
        lost == G.open \cap o.closed # {}
        g2 == IF lost THEN [g1 EXCEPT !.want = IF g1.up THEN g1.in ELSE @, !.in = {}, !.up = FALSE,
                                  !.conf = IF g1.up THEN g1.nick ELSE @, !.nick = IF g1.up THEN @ ELSE g1.conf] ELSE g1
        ks == DOMAIN g2.users \cup {o.lines[i][1] : i \in 1..Len(o.lines)}
    IN [g2 EXCEPT !.open = (@ \cup {C.total + i : i \in 1..Len(o.opened)}) \ o.closed,
                  !.users = [k \in ks |-> (IF k \in DOMAIN g2.users THEN g2.users[k] ELSE 0) + UsersOf(o, k)],
                  !.joined = JoinsIn(o),
                  !.login = LET i == FirstIdx(o.lines, LAMBDA x : x[2][2] = "NICK") IN
                            IF (\E j \in 1..Len(o.lines) : o.lines[j][2][2] = "USER") THEN o.lines[i][2][3] ELSE ""]
Op2(op) == IF op[1] = "srv" THEN <<"srv", op[2]>> ELSE op
Init == C = C0 /\ G = G0 /\ now = 0 /\ hist = <<>>
Next ==
    /\ Len(hist) < Depth
    /\ \E op \in Ops :
         /\ Enabled(op)
         /\ LET r == Result(op) IN
            /\ C' = r.c /\ G' = Ghost(op, r.o)
            /\ now' = IF op[1] = "tick" THEN now + op[2] ELSE now
            /\ hist' = Append(hist, Op2(op))
    /\ IF Gen THEN PrintT(ToJson(hist')) ELSE TRUE
vars == <<C, G, now, hist>>
Spec == Init /\ [][Next]_vars
Rel(t) == IF t = 0 THEN 0 ELSE now - t
Vw == <<[C EXCEPT !.at = Rel(@), !.last = Rel(@), !.born = Rel(@), !.total = 0, !.conn = IF @ = 0 THEN 0 ELSE 1], G.in, G.want, G.up, G.nick, G.conf, G.open = {}, Len(hist)>>

(* ---- what the properties say ---- *)
LoginNick == G.login # "" => G.login = G.conf
NickKnown == C.phase = "live" => C.W.nets[NET].st.me.nick = G.nick
OneConnection == Cardinality(G.open) <= 1 /\ (G.open # {}) = (C.phase \in {"live", "pending"}) /\ (G.open # {} => G.open = {C.conn})
OneLogin == \A k \in DOMAIN G.users : G.users[k] = 1
LoggedInIfLive == C.phase = "live" => C.conn \in DOMAIN G.users
LastOp == hist'[Len(hist')]
\* nothing happens on its own once disconnected
StaysOff == [][C.phase = "off" /\ C'.phase # "off" => LastOp[1] \in {"connect", "next"}]_vars
\* a loss is followed by exactly one attempt, with the next server, one interval later
LossWaits == [][LastOp[1] \in {"close", "finish"} /\ C.phase \in {"live", "pending"} /\ C'.phase \notin {"live"} =>
                  C'.phase = "wait" /\ C'.at = now + C.interval /\ C'.cur = (C.cur % Len(Servers)) + 1]_vars
Attempted == [][C.phase = "wait" /\ LastOp[1] = "tick" /\ now' >= C.at =>
                  (C'.phase \in {"live", "pending"} \/ (C'.phase = "wait" /\ C'.at > now' /\ \E i \in 1..2 : PortMode(C, i) = "no" \/ now' - C.at > MinSilent))]_vars
Disconnects == [][LastOp[1] = "disconnect" => C'.phase = "off" /\ G'.open = {}]_vars
\* channels: exactly those wanted, with the keys known, when the login is complete and at no other time
Rejoins == [][G'.joined # <<>> => LastOp = <<"srv", <<S, "376", "me", "End">>>>]_vars
RejoinsAll == [][~G.up /\ G'.up => /\ {Fold("", G'.joined[i][3]) : i \in 1..Len(G'.joined)} = G.want
                                   /\ Len(G'.joined) = Cardinality(G.want)]_vars
\* who talks is kept, who does not is given up
NeverWhileTalking == [][C.phase = "live" /\ LastOp[1] = "tick" /\ now' - C.last <= MaxSilent => C'.phase = "live" /\ C'.conn = C.conn]_vars
SilentIsDropped == C.phase = "live" => now - C.last <= MaxSilent + ProbeEvery
=============================================================================
