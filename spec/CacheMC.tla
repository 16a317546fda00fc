------------------------------ MODULE CacheMC ------------------------------
(* A server with one channel whose real state (T) is known, what it tells the *)
(* user, and what the proxy would answer.  Whenever the proxy may answer a     *)
(* question itself, the answer is the one the server would give at that point. *)
EXTENDS Cache, Json
CONSTANTS Depth, Gen
VARIABLES W, K, T, pc, hist

S == "irc.A"
cfg == [n \in {"A"} |-> [report |-> FALSE, offset |-> 0, autocmd |-> <<>>, join |-> <<>>]]
Age == 300
now == Len(hist) * 60
mask(n) == n \o "!u@h"
\* T: what is really so
T0 == [on |-> FALSE, members |-> [n \in {} |-> {}], topic |-> "", at |-> 0, by |-> "", modes |-> {}, key |-> "", bans |-> {}, hidden |-> FALSE]
W0 == [nets |-> [x \in {"A"} |-> [st |-> InitState("", "", ""), phase |-> "off", q |-> <<>>, order |-> <<>>]], cl |-> [c \in {} |-> 0]]
Begin == LET c == Connected(W0, "A", "me", "user", "proxy.host").w
             u == FromServer(c, cfg, "A", <<S, "376", "me", "End">>, 0).w
         IN Attach(u, cfg, "c1", "A", "me", "c1", "localhost").w
Init == W = Begin /\ K = NoKnowledge /\ T = T0 /\ pc = <<>> /\ hist = <<>>

\* the names as the server lists them now, one line each
Prefix(m) == IF "o" \in m THEN "@" ELSE IF "v" \in m THEN "+" ELSE ""
RECURSIVE SetSeq(_)
SetSeq(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE y \in s : TRUE IN <<x>> \o SetSeq(s \ {x})
Names(t) == [i \in 1..Cardinality(DOMAIN t.members) |->
               LET n == SetSeq(DOMAIN t.members)[i] IN <<S, "353", "me", "=", "#c", Prefix(t.members[n]) \o n>>]
            \o <<<<S, "366", "me", "#c", "End">>>>
Topic(t) == IF t.topic = "" THEN <<>> ELSE <<<<S, "332", "me", "#c", t.topic>>, <<S, "333", "me", "#c", t.by, ToString(t.at)>>>>
TopicOrNot(t) == IF t.topic = "" THEN <<<<S, "331", "me", "#c", "No topic">>>> ELSE Topic(t)
ModesLine(t) == <<<<S, "324", "me", "#c", "+" \o (IF "k" \in t.modes THEN "k" ELSE "") \o (IF "m" \in t.modes THEN "m" ELSE "")>>
                  \o (IF "k" \in t.modes /\ ~t.hidden THEN <<t.key>> ELSE <<>>)>>
Bans(t) == [i \in 1..Cardinality(t.bans) |-> <<S, "367", "me", "#c", SetSeq(t.bans)[i]>>] \o <<<<S, "368", "me", "#c", "End">>>>
Who(t) == [i \in 1..Cardinality(DOMAIN t.members) |->
             LET n == SetSeq(DOMAIN t.members)[i] IN <<S, "352", "me", "#c", "u", "h", S, n, "H" \o Prefix(t.members[n]), "0 Real">>]
          \o <<<<S, "315", "me", "#c", "End">>>>
Sub(f, n) == [x \in DOMAIN f \ {n} |-> f[x]]
Put(f, n, v) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN v ELSE f[x]]
\* what may happen on the server: <<lines told, what is so afterwards>>
Happens ==
    IF ~T.on THEN
        {<<<<<<mask("me"), "JOIN", "#c">>>> \o Topic(t) \o Names(t), t>> :
            t \in {[T0 EXCEPT !.on = TRUE, !.members = [n \in {"me"} |-> {"o"}]],
                   [T0 EXCEPT !.on = TRUE, !.members = [n \in {"me", "al"} |-> IF n = "al" THEN {"v"} ELSE {}], !.topic = "t0", !.by = "al", !.at = 7, !.modes = {"m"}, !.bans = {"x!*@*"}],
                   [T0 EXCEPT !.on = TRUE, !.members = [n \in {"me", "al"} |-> {}], !.modes = {"k"}, !.key = "kk", !.hidden = TRUE]}}
    ELSE
        LET m == T.members IN
        (IF "al" \in DOMAIN m THEN
            {<<<<<<mask("al"), "PART", "#c">>>>, [T EXCEPT !.members = Sub(m, "al")]>>,
             <<<<<<mask("me"), "MODE", "#c", IF "o" \in m["al"] THEN "-o" ELSE "+o", "al">>>>,
               [T EXCEPT !.members = Put(m, "al", IF "o" \in m["al"] THEN m["al"] \ {"o"} ELSE m["al"] \cup {"o"})]>>,
             <<<<<<mask("al"), "TOPIC", "#c", "t1">>>>, [T EXCEPT !.topic = "t1", !.by = "al", !.at = now]>>,
             <<<<<<mask("al"), "TOPIC", "#c", "">>>>, [T EXCEPT !.topic = "", !.by = "", !.at = 0]>>} ELSE {})
        \cup (IF "al" \notin DOMAIN m THEN {<<<<<<mask("al"), "JOIN", "#c">>>>, [T EXCEPT !.members = Put(m, "al", {})]>>} ELSE {})
        \cup {<<<<<<S, "MODE", "#c", IF "m" \in T.modes THEN "-m" ELSE "+m">>>>,
               [T EXCEPT !.modes = IF "m" \in @ THEN @ \ {"m"} ELSE @ \cup {"m"}]>>,
              <<<<<<S, "MODE", "#c", "+k", "key">>>>, [T EXCEPT !.modes = @ \cup {"k"}, !.key = "key", !.hidden = FALSE]>>,
              <<<<<<S, "MODE", "#c", IF "b!*@*" \in T.bans THEN "-b" ELSE "+b", "b!*@*">>>>,
               [T EXCEPT !.bans = IF "b!*@*" \in @ THEN @ \ {"b!*@*"} ELSE @ \cup {"b!*@*"}]>>,
              <<<<<<S, "KICK", "#c", "me", "out">>>>, T0>>}
Questions == {<<"", "NAMES", "#c">>, <<"", "TOPIC", "#c">>, <<"", "MODE", "#c">>, <<"", "MODE", "#c", "b">>, <<"", "WHO", "#c">>}
TrueAnswer(l) ==
    CASE Cmd(l) = "NAMES" -> Names(T) [] Cmd(l) = "TOPIC" -> TopicOrNot(T)
      [] Cmd(l) = "MODE" /\ Len(l) = 3 -> ModesLine(T) [] Cmd(l) = "MODE" -> Bans(T) [] OTHER -> Who(T)
Tell(ls, op) ==
    LET r == FromServer(W, cfg, "A", Head(ls), now) IN
    /\ W' = r.w /\ K' = Remember(K, W.nets["A"].st, r.w.nets["A"].st, Head(ls), now) /\ pc' = Tail(ls)
    /\ hist' = Append(hist, op)
Next ==
    /\ Len(hist) < Depth
    /\ \/ /\ pc = <<>>
          /\ \E h \in Happens : T' = h[2] /\ Tell(h[1], <<"srv", Head(h[1])>>)
       \/ /\ pc = <<>> /\ T.on      \* a question that is put to the server
          /\ \E q \in Questions : Tell(TrueAnswer(q), <<"ask", q, Head(TrueAnswer(q))>>) /\ UNCHANGED T
       \/ /\ pc # <<>> /\ Tell(pc, <<"srv", Head(pc)>>) /\ UNCHANGED T
    /\ IF Gen THEN PrintT(ToJson(hist')) ELSE TRUE
vars == <<W, K, T, pc, hist>>
Spec == Init /\ [][Next]_vars
Vw == <<W.nets["A"].st, K, T, pc, Len(hist)>>
st == W.nets["A"].st
\* as the proxy would say it
FromProxy(ls) == [i \in 1..Len(ls) |-> <<"A">> \o Tail(ls[i])]
Truthful ==
    (T.on /\ pc = <<>>) => \A q \in Questions : Known(st, K, q, now, Age) => AnswerOk(st, K, q, FromProxy(TrueAnswer(q)), "A", "me")
\* also in the middle of a listing nothing is answered that is not known
NotHalf == pc # <<>> /\ T.on => ~(Known(st, K, <<"", "NAMES", "#c">>, now, Age) /\ pc[1][2] \in {"353", "366"})
=============================================================================
