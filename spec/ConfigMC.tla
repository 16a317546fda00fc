------------------------------ MODULE ConfigMC ------------------------------
(* Keeping the configuration, on its own: every history of changes, saves to  *)
(* two directories and restarts from either gives back what was saved.        *)
EXTENDS Config, Json
CONSTANTS Depth, Gen
VARIABLES c,      \* the configuration in use
          live,   \* name -> what happens on the network
          home,   \* the directory it came from
          dirs,   \* what is in the directories
          was,    \* what was saved there
          h

Names == {"neta", "netb"}
Chans == {"#c", "#d"}
DirNames == {"~", "~/alt"}
Empty == [g |-> [x \in {"default-nick", "admin-user"} |-> <<>>], nets |-> <<>>, lsts |-> <<>>]
Start == [Empty EXCEPT !.nets = [n \in {"neta"} |-> [NewNet EXCEPT !.own = TRUE, !.nick = <<"me">>, !.servers = <<NewServer("srva", "6667", <<>>)>>]]]
Off == [up |-> FALSE, in |-> FALSE, nick |-> "me", chans |-> <<>>]

Init == c = Start /\ live = [n \in {"neta"} |-> Off] /\ home = "~" /\ h = <<>>
        /\ dirs = [d \in DirNames |-> IF d = "~" THEN Save(Start) ELSE EmptyDir]
        /\ was = [d \in DirNames |-> IF d = "~" THEN <<Kept(Start)>> ELSE <<>>]
Log(x) == h' = Append(h, x)
N == DOMAIN c.nets
Same == UNCHANGED <<home, dirs, was>>

Add(n) == n \notin N /\ c' = AddNet(c, n, NewNet) /\ live' = [x \in N \cup {n} |-> IF x = n THEN Off ELSE live[x]] /\ Same /\ Log(<<"add", n>>)
Del(n) == n \in N /\ c' = DelNet(c, n) /\ live' = [x \in N \ {n} |-> live[x]] /\ Same /\ Log(<<"del", n>>)
Ren(n, m) == n \in N /\ m \notin N /\ c' = RenameNet(c, n, m)
             /\ live' = [x \in (N \ {n}) \cup {m} |-> IF x = m THEN live[n] ELSE live[x]] /\ Same /\ Log(<<"rename", n, m>>)
Srv(n, pw) == n \in N /\ Len(c.nets[n].servers) < 2 /\ c' = AddServer(c, n, NewServer("srv" \o n, "6667", pw))
              /\ ~Ambiguous(c') /\ UNCHANGED live /\ Same /\ Log(<<"server", n, IF pw = <<>> THEN "" ELSE pw[1]>>)
On(n) == n \in N /\ c.nets[n].servers /= <<>> /\ ~live[n].in
         /\ live' = [live EXCEPT ![n] = [@ EXCEPT !.up = TRUE, !.in = TRUE]] /\ UNCHANGED c /\ Same /\ Log(<<"on", n>>)
OffNow(n) == n \in N /\ live[n].in /\ c' = Learn(c, n, live[n]) /\ live' = [live EXCEPT ![n] = Off] /\ Same /\ Log(<<"off", n>>)
Jn(n, x, k) == n \in N /\ live[n].in /\ x \notin DOMAIN live[n].chans
               /\ live' = [live EXCEPT ![n].chans = [y \in DOMAIN @ \cup {x} |-> IF y = x THEN k ELSE @[y]]]
               /\ UNCHANGED c /\ Same /\ Log(<<"join", n, x, IF k = <<>> THEN "" ELSE k[1]>>)
Pt(n, x) == n \in N /\ live[n].in /\ x \in DOMAIN live[n].chans
            /\ live' = [live EXCEPT ![n].chans = [y \in DOMAIN @ \ {x} |-> @[y]]] /\ UNCHANGED c /\ Same /\ Log(<<"part", n, x>>)
Nk(n) == n \in N /\ live[n].in /\ live[n].nick = "me" /\ live' = [live EXCEPT ![n].nick = "you"] /\ UNCHANGED c /\ Same /\ Log(<<"nick", n>>)
Set(s, v) == c.g[s] /= v /\ c' = [c EXCEPT !.g[s] = v] /\ UNCHANGED live /\ Same
             /\ Log(IF v = <<>> THEN <<"unset", s>> ELSE <<"set", s, v[1]>>)
Sv(d) == LET u == Update(c, live) IN
         c' = u /\ dirs' = [dirs EXCEPT ![d] = Save(u)] /\ was' = [was EXCEPT ![d] = <<Kept(u)>>] /\ UNCHANGED <<live, home>> /\ Log(<<"save", d>>)
Rs(d) == was[d] /= <<>> /\ c' = Load(dirs[d]) /\ home' = d
         /\ live' = [n \in DOMAIN c'.nets |-> [Off EXCEPT !.up = c'.nets[n].auto /\ c'.nets[n].servers /= <<>>]] /\ UNCHANGED <<dirs, was>> /\ Log(<<"restart", d>>)

Next ==
    /\ Len(h) < Depth
    /\ \/ \E n \in Names : Add(n) \/ Del(n) \/ On(n) \/ OffNow(n) \/ Nk(n)
       \/ \E n, m \in Names : Ren(n, m)
       \/ \E n \in Names, pw \in {<<>>, <<"pw1">>} : Srv(n, pw)
       \/ \E n \in Names, x \in Chans, k \in {<<>>, <<"key">>} : Jn(n, x, k)
       \/ \E n \in Names, x \in Chans : Pt(n, x)
       \/ Set("admin-user", <<"adm">>) \/ Set("admin-user", <<>>) \/ Set("default-nick", <<"me">>)
       \/ \E d \in DirNames : Sv(d) \/ Rs(d)
    /\ IF Gen THEN PrintT(ToJson(h')) ELSE TRUE
Spec == Init /\ [][Next]_<<c, live, home, dirs, was, h>>

Vw == <<c, live, home, dirs, was, Len(h)>>

RoundTrip == \A d \in DirNames : was[d] /= <<>> => Load(dirs[d]) = was[d][1]
Idempotent == \A d \in DirNames : was[d] /= <<>> => Save(Load(dirs[d])) = dirs[d]
Unambiguous == ~Ambiguous(c)


=============================================================================
