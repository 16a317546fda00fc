-------------------------------- MODULE Admin --------------------------------
(* The administration commands.                                               *)
(*                                                                            *)
(* A command is given as words, w as typed and lw in lower case, through a    *)
(* client ("client"; x.net is its network), or the administration socket      *)
(* ("sock", without a network).  Its outcome is                               *)
(*   c     the configuration afterwards                                       *)
(*   out   the answers, ANY if they are not specified here                    *)
(*   st    network -> the states of its connection that are possible then     *)
(*         (networks not mentioned keep theirs)                               *)
(*   run   the listeners that are listening                                   *)
(*   saved the directory written, <<>> if none;  bye  the client is detached  *)
EXTENDS Config

NotConnected == 0
Pending == 1
Logged == 5
Busy == {2, 3, 4}
ANY == <<"*ANY*">>

SettingNames == <<"admin-log", "admin-user", "auto-away-enable", "auto-away-client-limit", "auto-away-message", "auto-away-nick",
    "auto-away-time", "autosave", "bind", "default-client-charset", "default-network", "learn-network-name", "learn-nickserv",
    "log_level", "logging", "max_who_age", "motd-file", "password", "port", "report-time", "report-time-offset", "replication",
    "default-nick", "default-username", "default-fullname">>
Booleans == {"admin-log", "auto-away-enable", "autosave", "learn-network-name", "learn-nickserv"}
Numbers == {"auto-away-client-limit", "auto-away-time", "max_who_age", "report-time-offset"}
OfListener == [x \in {"bind", "default-network", "password", "port"} |->
                 CASE x = "bind" -> "address" [] x = "default-network" -> "network" [] x = "password" -> "password" [] OTHER -> "port"]
Plain == {"auto-away-message", "auto-away-nick", "default-client-charset"}
Backends == {"none", "simple", "highlight", "lastdisconnect"}

\* what a text means as a number, for the texts used here
Number(t) == CASE t = "0" -> "0" [] t = "5" -> "5" [] t = "600" -> "600" [] t = "-3600" -> "-3600" [] t = "12x" -> "12"
               [] t = "2" -> "2" [] t = "1" -> "1" [] t = "-1" -> "-1" [] OTHER -> "0"

Default(c) == {i \in DOMAIN c.lsts : c.lsts[i].default}
HasDefault(c) == Default(c) /= {}
Main(c) == CHOOSE i \in Default(c) : \A j \in Default(c) : i <= j

RECURSIVE JoinWords(_)
JoinWords(w) == IF w = <<>> THEN "" ELSE IF Len(w) = 1 THEN w[1] ELSE w[1] \o " " \o JoinWords(Tail(w))
From(w, i) == IF i > Len(w) THEN <<>> ELSE SubSeq(w, i, Len(w))

(* ------------------------------------------------------------------ settings *)
Value(c, s) ==
    CASE s \in DOMAIN OfListener -> IF ~HasDefault(c) THEN <<>> ELSE IF s = "port" THEN <<c.lsts[Main(c)].port>> ELSE c.lsts[Main(c)][OfListener[s]]
      [] s = "max_who_age" -> IF c.g[s] = <<"0">> THEN <<>> ELSE c.g[s]
      [] s = "auto-away-time" -> IF c.g[s] = <<"0">> THEN <<>> ELSE c.g[s]
      [] s = "report-time-offset" -> IF c.g[s] = <<"0">> THEN <<>> ELSE c.g[s]
      [] OTHER -> c.g[s]

\* v: <<>> for UNSET; lv in lower case; ex: whether there is a file of that name
Assign(c, s, v, lv, ex) ==
    LET ok(o) == [c |-> [c EXCEPT !.g[s] = o], out |-> <<>>]
        no(t) == [c |-> c, out |-> t]
    IN CASE s \in Booleans ->
              IF v = <<>> THEN no(<<"Boolean settings can't be unset.">>)
              ELSE IF lv \in {<<"true">>, <<"false">>} THEN ok(lv) ELSE no(<<"Invalid boolean value `" \o v[1] \o "'">>)
         [] s \in Numbers -> ok(IF v = <<>> THEN (IF s \in {"max_who_age", "report-time-offset"} THEN <<"0">> ELSE <<"-1">>) ELSE <<Number(v[1])>>)
         [] s \in Plain -> ok(v)
         [] s = "admin-user" -> ok(IF v = <<"">> THEN <<>> ELSE v)
         [] s = "replication" -> IF v = <<>> \/ v[1] \in Backends THEN ok(v) ELSE no(<<"No such replication backend `" \o v[1] \o "'">>)
         [] s = "report-time" ->
              IF v = <<>> THEN no(<<"report-time can't be unset.">>)
              ELSE IF lv[1] \in {"never", "false"} THEN ok(<<"never">>)
              ELSE IF lv[1] = "always" THEN ok(<<"always">>)
              ELSE IF lv[1] \in {"replication", "true"} THEN ok(<<"replication">>) ELSE no(<<>>)
         [] s = "motd-file" -> IF v = <<>> THEN no(<<"motd-file can't be unset.">>)
                               ELSE IF ex THEN ok(v) ELSE no(<<v[1] \o ": file does not exist">>)
         [] s = "logging" -> no(<<>>)
         [] s = "log_level" -> no(ANY)
         [] s \in {"default-nick", "default-username"} ->
              LET what == IF s = "default-nick" THEN "Nick name" ELSE "Username" IN
              IF v = <<>> \/ v = <<"">> THEN no(<<what \o " can't be empty.">>)
              ELSE IF \E i \in 1..Len(v[1]) : SubSeq(v[1], i, i) = " " THEN no(<<what \o " can't contain spaces.">>)
              ELSE IF SubSeq(v[1], 1, 1) = ":" THEN no(<<what \o " can't start with semicolon.">>) ELSE ok(v)
         [] s = "default-fullname" -> IF v = <<>> \/ v = <<"">> THEN no(<<"Fullname can't be empty">>) ELSE ok(v)
         [] s \in DOMAIN OfListener ->
              IF s = "port" /\ v = <<>> THEN no(<<"port can't be unset.">>)
              ELSE IF ~HasDefault(c) THEN no(<<>>)
              ELSE LET i == Main(c)
                       c1 == CASE s = "bind" -> [c EXCEPT !.lsts[i].address = v]
                               [] s = "port" -> [c EXCEPT !.lsts[i].port = v[1]]
                               [] s = "default-network" -> [c EXCEPT !.lsts[i].network = v]
                               [] OTHER -> [c EXCEPT !.lsts[i].password = v, !.g["password"] = v]
                   IN [c |-> c1, out |-> <<>>]

\* the listeners that are listening are shown, and stopped, by the addresses they have in the configuration
Where(lst) == <<IF lst.address = <<>> THEN "" ELSE lst.address[1], lst.port>>
Moved(c, c1, run) ==
    IF ~HasDefault(c) \/ Where(c.lsts[Main(c)]) = Where(c1.lsts[Main(c)]) THEN run
    ELSE LET at == {i \in DOMAIN run : run[i] = Where(c.lsts[Main(c)])}
         IN IF at = {} THEN run ELSE [run EXCEPT ![CHOOSE i \in at : \A j \in at : i <= j] = Where(c1.lsts[Main(c)])]

(* ------------------------------------------------------------------ networks *)
Reserved == {"global", "listener", "socks", "auto-away", "log-irssi", "log-custom"}
BadName(n) == n \in Reserved \/ n = "" \/ (n /= "" /\ SubSeq(n, 1, 1) \in {"#", "&", "."}) \/ (n /= "" /\ SubSeq(n, Len(n), Len(n)) = "~")
              \/ \E i \in 1..Len(n) : SubSeq(n, i, i) \in {"[", "]", "/"}

\* the host and port of an address, split at the first colon
Cut(a) == IF \E i \in 1..Len(a) : SubSeq(a, i, i) = ":"
          THEN LET i == CHOOSE j \in 1..Len(a) : SubSeq(a, j, j) = ":" /\ \A k \in 1..(j - 1) : SubSeq(a, k, k) /= ":"
               IN <<SubSeq(a, 1, i - 1), SubSeq(a, i + 1, Len(a))>>
          ELSE <<a>>

\* L: what happens on the networks; name -> [st, in, state, nick, chans, cur, virtual]
Given(L) == [n \in DOMAIN L |-> [up |-> L[n].st /= NotConnected, in |-> L[n].in, nick |-> L[n].nick, chans |-> L[n].chans]]
Leave(c, L, n) == IF L[n].in THEN Learn(c, n, L[n]) ELSE c
\* a network without servers is not connected to, and not at the next start either
Bare(c, n) == c.nets[n].servers = <<>> /\ c.nets[n].kind = "tcp"
Tried(c, n) == IF Bare(c, n) THEN [c EXCEPT !.nets[n].auto = FALSE] ELSE c
\* the states possible after connecting
Connecting(c, n) == IF Bare(c, n) THEN {NotConnected, Pending} ELSE Busy
StateText(n, l) == CASE l.st = NotConnected -> n \o ": Not connected"
                     [] l.st = Pending -> n \o ": Reconnecting"
                     [] l.st = 2 -> n \o ": Connect in progress"
                     [] l.st = 3 -> n \o ": Connected, logging in"
                     [] OTHER -> n \o ": connected"

RECURSIVE SetLines(_, _)
SetLines(c, i) == IF i > Len(SettingNames) THEN <<>>
                  ELSE LET s == SettingNames[i] v == IF s = "log_level" THEN <<"*">> ELSE Value(c, s)
                       IN <<IF v = <<>> THEN s \o " is not set" ELSE s \o " = " \o v[1]>> \o SetLines(c, i + 1)

\* x: [net: network of the client or "", client: BOOLEAN, ex: BOOLEAN];  order: the networks in the order they were made
Command(c, L, run, order, x, w, lw) ==
    LET R0 == [c |-> c, out |-> <<>>, st |-> <<>>, run |-> run, saved |-> <<>>, bye |-> FALSE]
        out(t) == [R0 EXCEPT !.out = <<t>>]
        has(i) == Len(w) >= i
        arg(i) == w[i]
        known(n) == n \in DOMAIN L
        one(n, s) == [m \in {n} |-> s]
        cmd == lw[1]
        add(i) == IF BadName(lw[i]) THEN out("Invalid network name `" \o w[i] \o "'")
                  ELSE IF known(lw[i]) THEN out("Network with name `" \o w[i] \o "' already exists")
                  ELSE [R0 EXCEPT !.c = AddNet(c, w[i], NewNet), !.st = one(w[i], {NotConnected}),
                                  !.out = <<"Network `" \o w[i] \o "' added. Use ADDSERVER to add a server to this network.">>]
        del(i) == IF ~known(lw[i]) THEN out("No such network `" \o w[i] \o "'")
                  ELSE [R0 EXCEPT !.c = DelNet(c, lw[i]), !.st = one(lw[i], {}), !.bye = (x.net = lw[i]),
                                  !.out = IF x.net = lw[i] THEN ANY ELSE <<"Network `" \o w[i] \o "' deleted">>]
        list == [R0 EXCEPT !.out = [i \in DOMAIN order |-> StateText(order[i], L[order[i]])]]
        setting(i) == lw[i] \in Range(SettingNames)
    IN
    CASE w = <<>> -> out("Please specify a command. Use the 'help' command to get a list of available commands")
      [] cmd = "addnetwork" -> IF ~has(2) THEN out("No name specified") ELSE add(2)
      [] cmd = "delnetwork" -> IF ~has(2) THEN out("Not enough parameters") ELSE del(2)
      [] cmd = "listnetworks" -> list
      [] cmd = "network" ->
           IF ~has(2) THEN out("Usage: network [list|add <name>|del <name>]")
           ELSE CASE lw[2] = "list" -> list
                  [] lw[2] = "add" -> IF ~has(3) THEN out("Usage: network add <name>") ELSE add(3)
                  [] lw[2] \in {"del", "delete", "remove"} -> IF ~has(3) THEN out("Usage: network del <name>") ELSE del(3)
                  [] lw[2] = "rename" ->
                       IF ~has(4) THEN out("Usage: network rename <oldname> <newname>")
                       ELSE IF ~known(lw[3]) THEN out("Network with name `" \o w[3] \o "' does not exist")
                       ELSE IF BadName(lw[4]) THEN out("Invalid network name `" \o w[4] \o "'")
                       ELSE IF known(lw[4]) THEN out("Network with name `" \o w[4] \o "' already exists")
                       ELSE [R0 EXCEPT !.c = RenameNet(c, lw[3], w[4]), !.st = [m \in {lw[3], w[4]} |-> IF m = w[4] THEN {L[lw[3]].st} ELSE {}]]
                  [] lw[2] = "info" -> IF ~has(3) THEN out("Usage: network info <name>")
                                       ELSE IF ~known(lw[3]) THEN out("No such network `" \o w[3] \o "'") ELSE [R0 EXCEPT !.out = ANY]
                  [] OTHER -> out("Usage: network [list|add <name>|del <name>]")
      [] cmd = "addserver" ->
           IF ~has(3) THEN out("Not enough parameters")
           ELSE IF ~known(lw[2]) THEN out("No such network '" \o w[2] \o "'")
           ELSE IF c.nets[lw[2]].kind /= "tcp" THEN out("Not a TCP/IP network!")
           ELSE LET a == Cut(w[3]) IN
                [R0 EXCEPT !.c = AddServer(c, lw[2], NewServer(a[1], IF Len(a) = 1 THEN "6667" ELSE a[2], IF has(4) THEN <<w[4]>> ELSE <<>>)),
                           !.out = <<"Server added to `" \o w[2] \o "'">>]
      [] cmd = "connect" ->
           IF ~has(2) THEN out("No network specified")
           ELSE IF ~known(lw[2]) THEN out("No such network `" \o w[2] \o "'")
           ELSE LET s == L[lw[2]].st IN
                IF s = NotConnected THEN [R0 EXCEPT !.c = Tried(c, lw[2]), !.out = <<"Connecting to `" \o w[2] \o "'">>, !.st = one(lw[2], Connecting(c, lw[2]))]
                ELSE IF s = Pending THEN [R0 EXCEPT !.c = Tried(c, lw[2]), !.out = <<"Forcing reconnect to `" \o w[2] \o "'">>, !.st = one(lw[2], Connecting(c, lw[2]))]
                ELSE IF s \in Busy THEN out("Connect to `" \o w[2] \o "' already in progress")
                ELSE out("Already connected to `" \o w[2] \o "'")
      [] cmd = "disconnect" ->
           IF has(2) /\ ~known(lw[2]) THEN out("Can't find active network with that name")
           ELSE IF ~has(2) /\ x.net = "" THEN out("Usage: DISCONNECT <network>")
           ELSE LET n == IF has(2) THEN lw[2] ELSE x.net IN
                IF L[n].st = NotConnected THEN out("Already disconnected from `" \o n \o "'")
                ELSE IF c.nets[n].kind = "virtual" THEN out("Built-in network `" \o n \o "' can't be disconnected")
                ELSE [R0 EXCEPT !.c = Leave(c, L, n), !.st = one(n, {NotConnected}), !.out = <<"Disconnecting from `" \o n \o "'">>]
      [] cmd = "nextserver" ->
           IF has(2) /\ ~known(lw[2]) THEN out(w[2] \o ": Not connected")
           ELSE IF ~has(2) /\ x.net = "" THEN out("No current network")
           ELSE LET n == IF has(2) THEN lw[2] ELSE x.net IN
                [R0 EXCEPT !.c = Tried(Leave(c, L, n), n), !.st = one(n, Connecting(c, n)), !.out = <<(IF has(2) THEN w[2] ELSE n) \o ": Reconnecting">>]
      [] cmd = "saveconfig" ->
           LET d == IF has(2) THEN w[2] ELSE x.home IN
           [R0 EXCEPT !.c = Update(c, Given(L)), !.saved = <<d>>, !.out = <<"Configuration saved in " \o d>>]
      [] cmd = "set" ->
           IF ~has(2) THEN [R0 EXCEPT !.out = SetLines(c, 1)]
           ELSE IF ~setting(2) THEN out("Unknown setting `" \o w[2] \o "'")
           ELSE IF ~has(3) THEN (IF lw[2] = "log_level" THEN [R0 EXCEPT !.out = ANY]
                                 ELSE LET v == Value(c, lw[2]) IN
                                      out(IF v = <<>> THEN SettingNames[CHOOSE i \in DOMAIN SettingNames : SettingNames[i] = lw[2]] \o " is not set" ELSE v[1]))
           ELSE LET r == Assign(c, lw[2], <<JoinWords(From(w, 3))>>, <<JoinWords(From(lw, 3))>>, x.ex) IN [R0 EXCEPT !.c = r.c, !.out = r.out, !.run = Moved(c, r.c, run)]
      [] cmd = "unset" ->
           IF ~has(2) THEN out("Usage: unset <setting>")
           ELSE IF ~setting(2) THEN out("Unknown setting `" \o w[2] \o "'")
           ELSE LET r == Assign(c, lw[2], <<>>, <<>>, FALSE) IN [R0 EXCEPT !.c = r.c, !.out = r.out, !.run = Moved(c, r.c, run)]
      [] cmd = "echo" -> out(JoinWords(From(w, 2)))
      [] cmd = "help" -> out(IF has(2) THEN "Sorry, no help for " \o w[2] \o " available" ELSE "Sorry, help not available")
      [] cmd = "detach" -> IF ~x.client THEN out("No client to detach.") ELSE [R0 EXCEPT !.bye = TRUE, !.out = ANY]
      [] cmd = "charset" -> IF ~has(2) THEN out("No charset specified")
                            ELSE IF ~x.client THEN out("The CHARSET command can only be used on client connections.")
                            ELSE IF lw[2] \in {"utf-8", "iso-8859-1"} THEN R0 ELSE out("Error setting charset: " \o w[2])
      [] cmd = "backlog" -> IF ~x.client THEN out("No client to send backlog to") ELSE [R0 EXCEPT !.out = ANY]
      [] cmd = "dumpjoinedchannels" ->
           IF has(2) /\ ~known(lw[2]) THEN out("Can't find network '" \o w[2] \o "'")
           ELSE IF ~has(2) /\ x.net = "" THEN out("No network specified and no current network.")
           ELSE LET n == IF has(2) THEN lw[2] ELSE x.net IN
                IF ~L[n].state THEN out("Network '" \o n \o "' not connected") ELSE [R0 EXCEPT !.out = L[n].chanseq]
      [] cmd = "startlistener" ->
           IF ~has(2) THEN out("No port specified") ELSE IF ~has(3) THEN out("No password specified")
           ELSE IF has(4) /\ ~known(lw[4]) THEN out("No such network `" \o w[4] \o "`")
           ELSE LET a == Cut(w[2]) IN [R0 EXCEPT !.run = Append(@, IF Len(a) = 1 THEN <<"", a[1]>> ELSE a)]
      [] cmd = "stoplistener" ->
           IF ~has(2) THEN out("No port specified")
           ELSE LET a == Cut(w[2])
                    hit(r) == IF Len(a) = 1 THEN r[2] = a[1] ELSE r = a
                IN [R0 EXCEPT !.run = SelectSeq(@, LAMBDA r : ~hit(r)), !.out = <<ToString(Len(SelectSeq(run, hit))) \o " listeners stopped">>]
      [] cmd = "listlistener" -> [R0 EXCEPT !.out = [i \in DOMAIN run |-> run[i][1] \o ":" \o run[i][2]]]
      [] OTHER -> out("Can't find command '" \o w[1] \o "'. Type 'help' for a list of available commands. ")
=============================================================================
