------------------------------- MODULE Config -------------------------------
(* The configuration: what it holds, how a directory keeps it, and how it     *)
(* follows what happens on the networks.                                      *)
(*                                                                            *)
(* A value that may be missing is <<>> or <<value>>.  A configuration c is    *)
(*   c.g      setting -> value or <<>>                                        *)
(*   c.nets   name -> network                                                 *)
(*   c.lsts   listeners, a sequence                                           *)
(* and a network is                                                           *)
(*   nick, full, user, pass, where   a value or <<>> (where: bind address,    *)
(*                                   program, kind of virtual network)        *)
(*   kind "tcp", "program" or "virtual"; servers: [host,port,ssl,pass,bind]   *)
(*   auto (connect at startup), implicit (made for a client, not kept until   *)
(*   it was logged in to), skipfirst, speed, interval, cmds                   *)
(*   chans    name -> [key, join];  own: kept in a file of its own            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

LOCAL Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
LOCAL Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Range(s) == {s[i] : i \in DOMAIN s}
Some(o) == o /= <<>>

NewNet == [nick |-> <<>>, full |-> <<>>, user |-> <<>>, pass |-> <<>>, where |-> <<>>, kind |-> "tcp", servers |-> <<>>,
           auto |-> FALSE, implicit |-> FALSE, skipfirst |-> FALSE, speed |-> 0, interval |-> -1, cmds |-> <<>>,
           chans |-> <<>>, own |-> FALSE]
NewServer(h, p, pw) == [host |-> h, port |-> p, ssl |-> FALSE, pass |-> pw, bind |-> <<>>]

(* ------------------------------------------------- changes of the networks *)
AddNet(c, n, net) == [c EXCEPT !.nets = Put(@, n, net)]
DelNet(c, n) == [c EXCEPT !.nets = Drop(@, n)]
RenameNet(c, n, m) == [c EXCEPT !.nets = Put(Drop(@, n), m, c.nets[n])]
AddServer(c, n, s) == [c EXCEPT !.nets[n].servers = Append(@, s)]

(* What the configuration takes over from a network that is logged in to:     *)
(* the nick (unless it is the default one) and the channels joined.  v: nick  *)
(* and chans, name -> key.                                                    *)
Learn(c, n, v) ==
    LET net == c.nets[n]
        nick == IF Some(net.nick) \/ c.g["default-nick"] /= <<v.nick>> THEN <<v.nick>> ELSE net.nick
        chans == [x \in DOMAIN net.chans \cup DOMAIN v.chans |->
                    IF x \in DOMAIN v.chans THEN [key |-> v.chans[x], join |-> TRUE]
                    ELSE [net.chans[x] EXCEPT !.join = FALSE]]
    IN [c EXCEPT !.nets[n].nick = nick, !.nets[n].chans = chans]

(* v: name -> [up: not given up, in: logged in, nick, chans]                  *)
RECURSIVE LearnSet(_, _, _)
LearnSet(c, v, ns) ==
    IF ns = {} THEN c
    ELSE LET n == CHOOSE x \in ns : TRUE
             c1 == [c EXCEPT !.nets[n].auto = v[n].up]
         IN LearnSet(IF v[n].in THEN Learn(c1, n, v[n]) ELSE c1, v, ns \ {n})
Update(c, v) == LearnSet(c, v, DOMAIN c.nets \cap DOMAIN v)

(* ------------------------------------------------------- what must be kept *)
KeptNet(net) == [net EXCEPT !.chans = [x \in {y \in DOMAIN net.chans : net.chans[y].join \/ Some(net.chans[y].key)} |-> net.chans[x]]]
Kept(c) == [c EXCEPT !.nets = [n \in {m \in DOMAIN c.nets : ~c.nets[m].implicit} |-> KeptNet(c.nets[n])]]

(* ------------------------------------------ the directory that keeps it all *)
(* The main file has the settings, the networks to connect to at startup and  *)
(* a group per network; networks with a file of their own have the same group *)
(* there.  Passwords and bind addresses of servers are in groups named by the *)
(* address of the server, next to the group of the network.  Channel keys are *)
(* lines of a file shared by all networks, listeners other than the main one  *)
(* are groups of another file.                                                *)
Url(s) == <<s.host, s.port, s.ssl>>
UrlsOf(net) == [i \in DOMAIN net.servers |-> Url(net.servers[i])]
RECURSIVE ServerGroups(_, _, _)
ServerGroups(groups, servers, i) ==
    IF i > Len(servers) THEN groups
    ELSE ServerGroups(Put(groups, Url(servers[i]), [pass |-> servers[i].pass, bind |-> servers[i].bind]), servers, i + 1)
NetGroup(net) == [nick |-> net.nick, full |-> net.full, user |-> net.user, pass |-> net.pass, where |-> net.where, kind |-> net.kind,
                  servers |-> UrlsOf(net), skipfirst |-> net.skipfirst, speed |-> net.speed, interval |-> net.interval, cmds |-> net.cmds,
                  join |-> {x \in DOMAIN net.chans : net.chans[x].join}]
EmptyDir == [g |-> <<>>, auto |-> {}, nets |-> <<>>, srv |-> <<>>, files |-> <<>>, keys |-> {}, lsts |-> <<>>]

RECURSIVE SaveNets(_, _, _)
SaveNets(d, c, ns) ==
    IF ns = {} THEN d
    ELSE LET n == CHOOSE x \in ns : TRUE
             net == c.nets[n]
             d1 == IF net.own THEN [d EXCEPT !.files = Put(@, n, [net |-> NetGroup(net), srv |-> ServerGroups(<<>>, net.servers, 1)])]
                   ELSE [d EXCEPT !.nets = Put(@, n, NetGroup(net)), !.srv = ServerGroups(@, net.servers, 1)]
             d2 == [d1 EXCEPT !.keys = @ \cup {<<n, x, net.chans[x].key>> : x \in {y \in DOMAIN net.chans : Some(net.chans[y].key)}}]
         IN SaveNets(d2, c, ns \ {n})
Save(c) ==
    LET kept == {n \in DOMAIN c.nets : ~c.nets[n].implicit}
    IN SaveNets([EmptyDir EXCEPT !.g = c.g, !.auto = {n \in kept : c.nets[n].auto}, !.lsts = c.lsts], c, kept)

LoadNet(d, n, grp, srv, own) ==
    LET ks == {k \in d.keys : k[1] = n}
        chans == grp.join \cup {k[2] : k \in ks}
        server(u) == [host |-> u[1], port |-> u[2], ssl |-> u[3],
                      pass |-> IF u \in DOMAIN srv THEN srv[u].pass ELSE <<>>, bind |-> IF u \in DOMAIN srv THEN srv[u].bind ELSE <<>>]
    IN [nick |-> grp.nick, full |-> grp.full, user |-> grp.user, pass |-> grp.pass, where |-> grp.where, kind |-> grp.kind,
        servers |-> [i \in DOMAIN grp.servers |-> server(grp.servers[i])],
        auto |-> n \in d.auto, implicit |-> FALSE, skipfirst |-> grp.skipfirst, speed |-> grp.speed, interval |-> grp.interval, cmds |-> grp.cmds,
        chans |-> [x \in chans |-> [key |-> LET k == {y \in ks : y[2] = x} IN IF k = {} THEN <<>> ELSE (CHOOSE y \in k : TRUE)[3], join |-> x \in grp.join]],
        own |-> own]
Load(d) ==
    [g |-> d.g,
     nets |-> [n \in DOMAIN d.nets \cup DOMAIN d.files |->
                 IF n \in DOMAIN d.files THEN LoadNet(d, n, d.files[n].net, d.files[n].srv, TRUE)
                 ELSE LoadNet(d, n, d.nets[n], d.srv, FALSE)],
     lsts |-> d.lsts]

(* The one thing the directory cannot tell apart: a server used twice, with   *)
(* different passwords or bind addresses, by networks kept in the same file.  *)
Ambiguous(c) ==
    LET kept == {n \in DOMAIN c.nets : ~c.nets[n].implicit}
        clash(a, b) == LET s == c.nets[a[1]].servers[a[2]]
                           t == c.nets[b[1]].servers[b[2]]
                       IN Url(s) = Url(t) /\ (s.pass /= t.pass \/ s.bind /= t.bind)
        main == UNION {{n} \X DOMAIN c.nets[n].servers : n \in {m \in kept : ~c.nets[m].own}}
    IN \/ \E a, b \in main : clash(a, b)
       \/ \E n \in {m \in kept : c.nets[m].own} : \E i, j \in DOMAIN c.nets[n].servers : clash(<<n, i>>, <<n, j>>)
=============================================================================
