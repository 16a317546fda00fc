------------------------------- MODULE ServeMC ------------------------------
EXTENDS Serve, Json
CONSTANTS Depth, Gen
VARIABLES S, h
Nets == {"netA", "netB"}
Cls == {"c1", "c2", "c3"}
v == <<S, h>>
Vw == [S EXCEPT !.due = [p \in DOMAIN S.due |-> S.due[p] # <<>>]]
Init == /\ S = [due |-> [p \in {} |-> <<>>], nets |-> [n \in Nets |-> "on"], cl |-> ("c1" :> [kind |-> "in", net |-> "netA"] @@ "c2" :> [kind |-> "in", net |-> "netB"])]
        /\ h = <<>>
Do(op, r) == S' = r.s /\ h' = Append(h, op)
Kinds == {"lines", "bytes", "cut", "known"}
Next ==
    /\ Len(h) < Depth
    /\ \/ \E p \in Nets \cup DOMAIN S.cl, k \in Kinds, x \in BOOLEAN :
            Alive(S, p) /\ Do(<<"bad", p, k>>, Offend(S, p, x))
       \/ \E c \in Cls \ DOMAIN S.cl : Do(<<"open", c>>, Open(S, c))
       \/ \E c \in DOMAIN S.cl, n \in Nets : S.cl[c].kind = "new" /\ Do(<<"login", c, n>>, Login(S, c, n))
       \/ \E c \in DOMAIN S.cl : Alive(S, c) /\ Do(<<"hang", c>>, Hang(S, c))
       \/ \E n \in Nets : S.nets[n] # "off" /\ Do(<<"lost", n>>, Hang(S, n))
       \/ \E n \in Nets : S.nets[n] # "off" /\ Do(<<"say", n>>, Say(Settle(S, n).s, n, "x"))
       \/ \E c \in DOMAIN S.cl : S.cl[c].kind = "in" /\ S.nets[S.cl[c].net] = "on" /\ Do(<<"ask", c>>, Ask(S, c, "x"))
       \/ \E p \in Nets \cup DOMAIN S.cl : Alive(S, p) /\ p \notin DOMAIN S.due /\ (IF IsNet(S, p) THEN TRUE ELSE S.cl[p].kind = "in") /\ Cardinality(DOMAIN S.due) < 1 /\ Do(<<"stall", p>>, Stall(S, p))
       \/ \E p \in DOMAIN S.due : Do(<<"flow", p>>, Flow(S, p))
       \/ Do(<<"wait">>, Wait(S))
    /\ IF Gen THEN PrintT(ToJson(h')) ELSE TRUE
Spec == Init /\ [][Next]_v
Last == h'[Len(h')]
By == IF Last[1] = "wait" THEN "-" ELSE Last[2]
\* a peer only ever takes itself down
Contained == [][\A p \in DOMAIN S.nets \cup DOMAIN S.cl : p # By /\ Alive(S, p) => (IF IsNet(S, p) THEN S'.nets[p] # "off" ELSE S'.cl[p] = S.cl[p])]_v
\* after waiting, all networks are being served again
Back == [][Last[1] = "wait" => \A n \in Nets : S'.nets[n] # "off"]_v
\* what happens on one network is not heard on another
Apart == \A n \in Nets : \A m \in Nets \ {n} : Side(S, n) \cap Side(S, m) = {}
         /\ \A p \in Side(S, n) : Alive(S, p) => Reach(S, p) = Side(S, n)
\* connections that aren't clients are heard by nobody
Mute == \A c \in DOMAIN S.cl : S.cl[c].kind = "new" => Reach(S, c) = {c}
\* nothing is forgotten while a peer doesn't read
Kept == [][\A p \in DOMAIN S.due : Alive(S', p) /\ p # By => p \in DOMAIN S'.due /\ Len(S'.due[p]) >= Len(S.due[p])]_v
=============================================================================
