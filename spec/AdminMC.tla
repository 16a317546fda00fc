------------------------------- MODULE AdminMC -------------------------------
(* The administration commands, on their own: every short history of commands *)
(* through a client of "neta" and of what happens on the networks meanwhile.  *)
EXTENDS Admin, Json
CONSTANTS Depth, Gen
VARIABLES c, L, run, order, saved, last, h

Names == {"neta", "netb"}
Other(n) == IF n = "neta" THEN "netb" ELSE "neta"
Host(n) == "srv" \o n \o ":" \o (IF n = "neta" THEN "6600" ELSE "6610")
Off == [st |-> NotConnected, in |-> FALSE, state |-> FALSE, nick |-> "me", chans |-> <<>>, chanseq |-> <<>>]

Words ==
    UNION {{<<"addnetwork", n>>, <<"delnetwork", n>>, <<"addserver", n, Host(n)>>, <<"addserver", n, Host(n), "spw">>,
            <<"connect", n>>, <<"disconnect", n>>, <<"nextserver", n>>, <<"network", "rename", n, Other(n)>>,
            <<"dumpjoinedchannels", n>>, <<"stoplistener", "127.0.0.1:5030">>, <<"startlistener", "5030", "pw", n>>} : n \in Names}
    \cup {<<"addnetwork", "global">>, <<"network", "rename", "neta", "a/b">>, <<"connect">>, <<"disconnect">>, <<"nextserver">>,
          <<"set", "default-nick", "you">>, <<"set", "default-nick">>, <<"unset", "default-nick">>, <<"set", "replication", "twice">>, <<"unset", "autosave">>,
          <<"saveconfig">>, <<"listnetworks">>, <<"startlistener", "127.0.0.1:5030", "pw">>, <<"stoplistener", "5030">>, <<"listlistener">>,
          <<"frobnicate">>}

G0 == [x \in {"default-nick"} |-> <<>>] @@ ("autosave" :> <<"true">>) @@ ("replication" :> <<>>)
Init ==
    /\ c = [g |-> G0, nets |-> [n \in {"neta"} |-> [NewNet EXCEPT !.servers = <<NewServer("srvneta", "6600", <<>>)>>]],
            lsts |-> <<[address |-> <<>>, port |-> "5000", password |-> <<"pw">>, network |-> <<>>, default |-> TRUE, allow |-> <<>>]>>]
    /\ L = [n \in {"neta"} |-> [Off EXCEPT !.st = 3]] /\ run = <<<<"", "5000">>>> /\ order = <<"neta">> /\ saved = <<>> /\ h = <<>>
    /\ last = [w |-> <<>>, r |-> <<>>, c |-> c, L |-> L, run |-> run]

Log(x) == h' = Append(h, x)
\* what is known of a network afterwards
After(n, st) == IF n \in DOMAIN L /\ st = L[n].st THEN L[n]
                ELSE IF n \in DOMAIN L /\ st = Pending THEN [L[n] EXCEPT !.st = st, !.in = FALSE] ELSE [Off EXCEPT !.st = st]
Renamed(w) == w[1] = "network" /\ Len(w) = 4 /\ w[2] = "rename"
Cmd(w) ==
    LET x == [net |-> IF "neta" \in DOMAIN L THEN "neta" ELSE "", client |-> TRUE, ex |-> FALSE, home |-> "~"]
        r == Command(c, L, run, order, x, w, w)
        gone == {n \in DOMAIN r.st : r.st[n] = {}}
        there == (DOMAIN L \ gone) \cup {n \in DOMAIN r.st : r.st[n] /= {}}
        moved == Renamed(w) /\ gone /= {}
    IN /\ ~r.bye            \* (the client is detached; not followed here)
       /\ \E choice \in [{n \in DOMAIN r.st : r.st[n] /= {}} -> 0..5] :
            /\ \A n \in DOMAIN choice : choice[n] \in r.st[n]
            /\ L' = [n \in there |-> IF n \notin DOMAIN choice THEN L[n] ELSE IF moved THEN L[CHOOSE g \in gone : TRUE] ELSE After(n, choice[n])]
       /\ ~Ambiguous(r.c) /\ c' = r.c /\ run' = r.run
       /\ order' = LET kept == SelectSeq(order, LAMBDA n : n \notin gone)
                       swap == [i \in DOMAIN order |-> IF order[i] \in gone THEN w[4] ELSE order[i]]
                   IN IF moved THEN swap ELSE kept \o (IF w[1] = "addnetwork" /\ DOMAIN L' /= DOMAIN L THEN <<w[2]>> ELSE <<>>)
       /\ saved' = IF r.saved = <<>> THEN saved ELSE Kept(r.c)
       /\ last' = [w |-> w, r |-> r, c |-> c, L |-> L, run |-> run]
       /\ Log(<<"cmd", w>>)
None == last' = [last EXCEPT !.w = <<>>]
Up(n) == n \in DOMAIN L /\ L[n].st \in Busy /\ c.nets[n].servers /= <<>> /\ L' = [L EXCEPT ![n] = [@ EXCEPT !.st = Logged, !.in = TRUE, !.state = TRUE]]
         /\ UNCHANGED <<c, run, order, saved>> /\ None /\ Log(<<"up", n>>)
Join(n) == n \in DOMAIN L /\ L[n].in /\ L[n].chans = <<>> /\ L' = [L EXCEPT ![n] = [@ EXCEPT !.chans = ("#c" :> <<>>), !.chanseq = <<"#c">>]]
         /\ UNCHANGED <<c, run, order, saved>> /\ None /\ Log(<<"join", n>>)
Drop(n) == n \in DOMAIN L /\ L[n].in /\ L' = [L EXCEPT ![n] = [Off EXCEPT !.st = Pending]]
         /\ c' = Learn(c, n, L[n]) /\ UNCHANGED <<run, order, saved>> /\ None /\ Log(<<"drop", n>>)
Next ==
    /\ Len(h) < Depth
    /\ (\E w \in Words : Cmd(w)) \/ \E n \in Names : Up(n) \/ Join(n) \/ Drop(n)
    /\ IF Gen THEN PrintT(ToJson(h')) ELSE TRUE
Spec == Init /\ [][Next]_<<c, L, run, order, saved, last, h>>
Vw == <<c, L, run, order, saved, last, Len(h)>>

(* every network has a place in the configuration and a connection, and is listed once *)
OneToOne == DOMAIN c.nets = DOMAIN L /\ Range(order) = DOMAIN L /\ Len(order) = Cardinality(DOMAIN L)
Names_ok == \A n \in DOMAIN L : ~BadName(n)
\* a command that is refused has no effect
Refused(t) == \E p \in {"No such", "Invalid", "Network with", "No network", "Already", "Connect to", "Usage", "Not enough", "Boolean", "No ", "Can't", "Unable"} :
                 Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
RefusedIsNothing == last.w /= <<>> /\ last.r.out /= ANY /\ Len(last.r.out) = 1 /\ Refused(last.r.out[1]) =>
                       c = last.c /\ run = last.run /\ \A n \in DOMAIN last.L : n \in DOMAIN L /\ L[n] = last.L[n]
\* a command about one network leaves the others alone
OthersAlone == last.w /= <<>> /\ last.w[1] \in {"delnetwork", "connect", "disconnect", "nextserver", "addserver"} /\ Len(last.w) > 1 =>
                  \A n \in DOMAIN last.L \ {last.w[2]} : n \in DOMAIN L /\ L[n] = last.L[n] /\ c.nets[n] = last.c.nets[n]
\* asking changes nothing; settings touch neither networks nor listeners
AskingOnly == last.w /= <<>> /\ (last.w[1] \in {"listnetworks", "listlistener", "dumpjoinedchannels"} \/ (last.w[1] = "set" /\ Len(last.w) < 3)) =>
                  c = last.c /\ L = last.L /\ run = last.run
SettingsOnly == last.w /= <<>> /\ last.w[1] \in {"set", "unset"} => c.nets = last.c.nets /\ L = last.L /\ run = last.run
\* a network renamed keeps what it was
RenameKeeps == last.w /= <<>> /\ Renamed(last.w) /\ DOMAIN L /= DOMAIN last.L =>
                  L[last.w[4]] = last.L[last.w[3]] /\ c.nets[last.w[4]].servers = last.c.nets[last.w[3]].servers
\* what is saved is what can be read again
SavedIsKept == saved /= <<>> => Load(Save(saved)) = saved
=============================================================================
