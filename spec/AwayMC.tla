------------------------------- MODULE AwayMC -------------------------------
(* All histories of clients coming and going, talking and falling silent on   *)
(* two networks.  The ghost variables remember when the user last said        *)
(* something and what each server was told since it last agreed.              *)
EXTENDS Away, TLC, Json
CONSTANTS Depth, Gen
VARIABLES A, G, hist

Limits == {-1, 0, 1}
Ns == {"netA", "netB"}
Cs == {"a", "b"}
OnNet == [a |-> {"netA"}, b |-> {"netA", "netB"}]
G0 == [said |-> 0, marks |-> [n \in Ns |-> 0], clear |-> [n \in Ns |-> 0], where |-> [c \in Cs |-> ""]]
Ops == {<<"attach", c, n>> : c \in Cs, n \in Ns} \cup {<<"detach", c>> : c \in Cs}
       \cup {<<"say", c>> : c \in Cs} \cup {<<"away", "a">>, <<"back", "a">>}
       \cup {<<"up", n>> : n \in Ns} \cup {<<"lost", "netA">>}
       \cup {<<"is", n, w>> : n \in Ns, w \in {TRUE, FALSE}}
       \cup {<<"tick", k>> : k \in {1, 29, 31, 40}} \cup {<<"ctcp", "netA">>}
Enabled(op) ==
    CASE op[1] = "attach" -> G.where[op[2]] = "" /\ op[3] \in OnNet[op[2]]
      [] op[1] \in {"detach"} -> G.where[op[2]] # ""
      [] op[1] \in {"say", "away", "back"} -> G.where[op[2]] # "" /\ A.nets[G.where[op[2]]].up
      [] op[1] = "up" -> ~A.nets[op[2]].up
      [] op[1] = "lost" -> A.nets[op[2]].up
      [] op[1] = "is" -> A.nets[op[2]].up /\ A.nets[op[2]].away # op[3]
      [] op[1] = "ctcp" -> A.nets[op[2]].up /\ A.nets[op[2]].cl = {}
      [] OTHER -> TRUE
Result(op) ==
    CASE op[1] = "attach" -> Join(A, op[3], op[2])
      [] op[1] = "detach" -> Leave(A, G.where[op[2]], op[2])
      [] op[1] = "say" -> Speaks(A, G.where[op[2]])
      [] op[1] = "away" -> SaysAway(A, G.where[op[2]], <<"AWAY", "lunch">>)
      [] op[1] = "back" -> SaysAway(A, G.where[op[2]], <<"AWAY">>)
      [] op[1] = "up" -> LoggedIn(A, op[2])
      [] op[1] = "lost" -> Lost(A, op[2])
      [] op[1] = "is" -> ServerSays(A, op[2], op[3])
      [] op[1] = "ctcp" -> R(A)
      [] OTHER -> Pass(R(A), op[2])
AutoMarks(out) == Cardinality({i \in 1..Len(out) : out[i] = <<"AWAY", A.msg>>})
Clears(out) == Cardinality({i \in 1..Len(out) : out[i] = <<"AWAY">>})
Init == /\ \E m \in Limits : A = AwayInit(<<"netA", "netB">>, m, "", "away", 30, 0)
        /\ G = G0 /\ hist = <<>>
Next ==
    /\ Len(hist) < Depth
    /\ \E op \in Ops :
         /\ Enabled(op)
         /\ LET r == Result(op) IN
            /\ A' = r.a
            /\ G' = [said |-> IF op[1] \in {"say", "away", "back"} THEN r.a.now ELSE G.said,
                     marks |-> [n \in Ns |-> AutoMarks(r.out[n])], clear |-> [n \in Ns |-> Clears(r.out[n])],
                     where |-> IF op[1] = "attach" THEN [G.where EXCEPT ![op[2]] = op[3]]
                               ELSE IF op[1] = "detach" THEN [G.where EXCEPT ![op[2]] = ""] ELSE G.where]
            /\ hist' = Append(hist, op)
    /\ IF Gen THEN PrintT(ToJson(<<<<"limit", A'.limit>>>> \o hist')) ELSE TRUE
vars == <<A, G, hist>>
Spec == Init /\ [][Next]_vars
Vw == <<[A EXCEPT !.now = 0, !.last = A.now - @], G.where, A.now - G.said, Len(hist)>>

Op == hist'[Len(hist')]
Marked(n) == G'.marks[n] > 0
\* never with more clients than the limit, nor when away already, nor before the login
OnlyFew == [][\A n \in Ns : Marked(n) => A.limit < 0 \/ Cardinality({c \in Cs : G'.where[c] = n}) <= A.limit]_vars
OnlyOnce == [][\A n \in Ns : Marked(n) => ~A.nets[n].away /\ A.nets[n].up /\ G'.marks[n] <= 1 + (A'.now - A.now) \div A.idle]_vars
\* apart from the moment a client leaves, only after the user has been silent for long enough
OnlyIdle == [][\A n \in Ns : Marked(n) => \/ Op[1] = "tick" /\ A'.now - G.said > A.idle
                                          \/ Op[1] = "detach" /\ A.limit >= 0 /\ G.where[Op[2]] = n]_vars
\* and it is taken back
Back == [][/\ Op[1] = "attach" /\ A.limit >= 0 /\ A.nets[Op[3]].up /\ Cardinality({c \in Cs : G'.where[c] = Op[3]}) > A.limit => G'.clear[Op[3]] = 1
           /\ Op[1] = "say" => \A n \in Ns : A.nets[n].up /\ A.nets[n].away => G'.clear[n] = 1]_vars
OnlyBack == [][\A n \in Ns : G'.clear[n] > 0 => Op[1] \in {"attach", "say", "back"}]_vars
\* it does happen
Happens == [][Op[1] = "tick" /\ Op[2] > A.idle + 1 => \A n \in Ns : A.nets[n].up /\ ~A.nets[n].away /\ Few(A, n) => G'.marks[n] >= 1]_vars
=============================================================================
