------------------------------ MODULE StateMC ------------------------------
(* Exhaustive exploration of State over small alphabets of server lines.     *)
(* Ghosts define membership independently of Apply; invariants compare them. *)
(* Each explored transition is printed as the history that leads to it.      *)
EXTENDS State, TLC, Json
CONSTANTS Which, Depth, Gen
VARIABLES st, hist, on, mem

ME == "me!u@h"
AL == "al!x@y"
S == "irc.a"
Members ==
  { <<ME, "JOIN", "#a">>, <<ME, "JOIN", "#B">>, <<AL, "JOIN", "#a">>, <<AL, "JOIN", "#b">>, <<ME, "PART", "#A">>, <<ME, "PART", "#b">>,
    <<AL, "PART", "#a">>, <<AL, "PART", "#b", "bye">>, <<AL, "KICK", "#a", "ME", "x">>, <<ME, "KICK", "#a", "al">>, <<ME, "KICK", "#a", "bo">>,
    <<AL, "QUIT", "q">>, <<AL, "NICK", "bo">>, <<"bo!x@y", "NICK", "al">>, <<ME, "NICK", "me2">>, <<"me2!u@h", "NICK", "me">>,
    <<"bo", "QUIT">>, <<"me2!u@h", "PART", "#a">>, <<S, "353", "me", "=", "#a", "@al me +bo">>, <<S, "353", "me", "=", "#a", "al ">>,
    <<S, "366", "me", "#a", "End">>, <<ME, "JOIN", "#a,#b">>, <<AL, "JOIN", "">>, <<"", "JOIN", "#a">>, <<AL, "PART", "#c">> }
Modes_ ==
  { <<ME, "JOIN", "#a">>, <<AL, "JOIN", "#a">>, <<ME, "PART", "#a">>, <<AL, "MODE", "#a", "+o", "al">>, <<AL, "MODE", "#A", "-o+v", "AL", "me">>,
    <<AL, "MODE", "#a", "+ov", "al", "al">>, <<AL, "MODE", "#a", "-vo", "me", "al">>, <<AL, "MODE", "#a", "+kl", "key", "5">>,
    <<AL, "MODE", "#a", "-k+m", "key">>, <<AL, "MODE", "#a", "-l">>, <<AL, "MODE", "#a", "+mb-n", "*!*@x">>, <<AL, "MODE", "#a", "-b", "*!*@x">>,
    <<AL, "MODE", "#a", "+o-m", "ghost">>, <<AL, "MODE", "#a", "+k">>, <<AL, "MODE", "me", "+i">>, <<ME, "MODE", "me", "-i+w">>,
    <<S, "324", "me", "#a", "+kn", "sesame">>, <<S, "324", "me", "#a", "+ml", "7">>, <<S, "324", "me", "#a", "+">>, <<S, "367", "me", "#a", "*!*@z", "al">>,
    <<S, "368", "me", "#a", "End">>, <<S, "221", "me", "+i">>, <<S, "346", "me", "#a", "inv">>, <<S, "347", "me", "#a", "End">> }
Topics ==
  { <<ME, "JOIN", "#a">>, <<ME, "PART", "#a">>, <<ME, "JOIN", "#b">>, <<AL, "TOPIC", "#a", "one">>, <<AL, "TOPIC", "#A", "">>, <<AL, "TOPIC", "#b", "two">>,
    <<S, "332", "me", "#a", "three">>, <<S, "333", "me", "#a", "al!x@y", "123">>, <<S, "331", "me", "#a", "none">>, <<S, "331", "me", "#b", "none">>,
    <<S, "329", "me", "#a", "77">>, <<S, "305", "me", "x">>, <<S, "306", "me", "x">>, <<S, "001", "you", "Welcome">>, <<AL, "TOPIC", "#c", "x">>,
    <<S, "332", "me", "#c", "x">>, <<AL, "JOIN", "#a">>, <<S, "302", "me", "al=+q@w me*=-r@t">>, <<S, "352", "me", "#a", "u9", "h9", "irc.a", "me", "H", "0 R">> }
Alphabet == CASE Which = "members" -> Members [] Which = "modes" -> Modes_ [] OTHER -> Topics

Init == st = InitState("me", "user", "host") /\ hist = <<>> /\ on = {} /\ mem = {}
F(x) == Fold("", x)
N(o) == F(Before(o, "!"))
MeF == F(st.me.nick)
ChansOf(s) == {F(x) : x \in {y \in Range(Split(s, ",")) : y # ""}}
\* independent definition of which channels the user is on and who is on them
OnAfter(l) ==
    IF l[1] # "" /\ Cmd(l) = "JOIN" /\ N(l[1]) = MeF THEN on \cup ChansOf(Arg(l, 1))
    ELSE IF l[1] # "" /\ Cmd(l) = "PART" /\ N(l[1]) = MeF THEN on \ ChansOf(Arg(l, 1))
    ELSE IF Cmd(l) = "KICK" /\ F(Arg(l, 2)) = MeF /\ <<F(Arg(l, 1)), MeF>> \in mem THEN on \ {F(Arg(l, 1))} ELSE on
MemAfter(l) ==
    LET o == OnAfter(l) a == F(Arg(l, 1)) n == N(l[1])
        m == IF Cmd(l) = "JOIN" /\ l[1] # "" THEN mem \cup {<<c, n>> : c \in ChansOf(Arg(l, 1))}
             ELSE IF Cmd(l) = "PART" THEN mem \ {<<c, n>> : c \in ChansOf(Arg(l, 1))}
             ELSE IF Cmd(l) = "KICK" THEN mem \ {<<a, F(Arg(l, 2))>>}
             ELSE IF Cmd(l) = "QUIT" THEN {x \in mem : x[2] # n}
             ELSE IF Cmd(l) = "NICK" THEN {<<x[1], IF x[2] = n THEN a ELSE x[2]>> : x \in mem}
             ELSE IF Respcode(l) = 1 THEN {<<x[1], IF x[2] = MeF THEN a ELSE x[2]>> : x \in mem}
             ELSE mem
    IN {x \in m : x[1] \in o}
\* 353/366 replace the list: taken over from the specification (the ghost has no notion of a list in progress)
MemOf(s) == UNION {{<<F(s.chans[i].name), F(s.chans[i].nicks[j].nick)>> : j \in 1..Len(s.chans[i].nicks)} : i \in 1..Len(s.chans)}
Next ==
    /\ Len(hist) < Depth
    /\ \E l \in Alphabet :
        \* nobody takes a nick that is in use
        /\ (Cmd(l) = "NICK" \/ Respcode(l) = 1) => \A x \in mem : x[2] # F(Arg(l, 1))
        /\ st' = Apply(st, l, 1)
        /\ hist' = Append(hist, l)
        /\ on' = OnAfter(l)
        /\ mem' = IF Respcode(l) = 353 THEN MemOf(st') ELSE MemAfter(l)
        /\ IF Gen THEN PrintT(ToJson(hist')) ELSE TRUE
Spec == Init /\ [][Next]_<<st, hist, on, mem>>
Vw == <<st, on, mem>>
OnOk == {F(st.chans[i].name) : i \in 1..Len(st.chans)} = on
MemOk == MemOf(st) = mem
NoDup == /\ \A i, j \in 1..Len(st.chans) : F(st.chans[i].name) = F(st.chans[j].name) => i = j
         /\ \A i \in 1..Len(st.chans) : \A j, k \in 1..Len(st.chans[i].nicks) :
              F(st.chans[i].nicks[j].nick) = F(st.chans[i].nicks[k].nick) => j = k
ModesOk == \A i \in 1..Len(st.chans) :
             /\ \A j \in 1..Len(st.chans[i].nicks) : st.chans[i].nicks[j].modes \subseteq CharSet(st.info.pmodes)
             /\ DOMAIN st.chans[i].opts \subseteq st.chans[i].modes
=============================================================================
