------------------------------ MODULE DaemonMC ------------------------------
(* Two connections, the proxies of two users, every order of what they say.   *)
EXTENDS Daemon, Json
CONSTANTS Depth, Gen, Which
VARIABLES D, seen, hist

ToBytes(s) == [i \in 1..Len(s) |-> CHOOSE b \in 0..255 : ByteText[b] = Ch(s, i)]
I == [u \in {"al", "bo", "ce"} |-> [pid |-> u # "ce", sock |-> u # "bo"]]
E == [spawn |-> TRUE]
Eol == <<13, 10>>
Lines == {"PASS pw", "NICK me", "USER al a b :r", "USER bo a b :r", "USER ce a b :r", "CONNECT h 1", "JOIN #a", "QUIT"}
Packets == {<<5, 1, 2>>, <<5, 1, 0>>, <<1, 2>> \o ToBytes("al") \o <<2>> \o ToBytes("pw"), <<1, 2>> \o ToBytes("zz") \o <<2>> \o ToBytes("pw"),
            <<1, 2>> \o ToBytes("al") \o <<2>> \o ToBytes("pw") \o <<5, 1, 0, 3, 1, 104, 0, 9>>,
            <<5, 1, 0, 3, 1, 104, 0, 9>>, <<5, 2, 0, 3, 1, 104, 0, 9>>, ToBytes("JOIN #a") \o <<10>>}
Msgs == IF Which = "SOCKS" THEN Packets ELSE {ToBytes(x) \o Eol : x \in Lines} \cup {ToBytes("PASS pw") \o Eol \o ToBytes("NICK me") \o Eol \o ToBytes("USER al a b r") \o Eol \o ToBytes("PART #b") \o Eol}
Backs == {ToBytes(x) \o Eol : x \in {"NOTICE AUTH :PASS OK", ":p 464 x :no", ":p 001 me :hi"}} \cup {ToBytes("NOTICE AUTH :PASS OK") \o Eol \o ToBytes(":p 002 me :hi") \o Eol}
Conns == {"k1", "k2"}
Init == D = Start /\ hist = <<>>
        /\ seen = [up |-> [c \in Conns |-> <<>>], down |-> [c \in Conns |-> <<>>], yes |-> {}, leak |-> {}, said |-> [c \in Conns |-> <<>>], told |-> [c \in Conns |-> <<>>]]
\* lines among the items
LinesOf(items) == LET q == SelectSeq(items, LAMBDA x : x[1] = "line") IN [i \in 1..Len(q) |-> q[i][2]]
ReadAll(bs) == LET q == CutLines(bs).lines IN [i \in 1..Len(q) |-> ReadLine(q[i])]
Live(X, c) == c \in DOMAIN X.c /\ X.c[c].kind = "live"
\* up/down: lines passed on; said/told: lines given while bridged; leak: lines other than credentials that crossed before
Note(r, c, bs, back) ==
    LET was == Live(D, c) is == Live(r.d, c) yes == back /\ c \notin seen.yes /\ Verdict(ReadAll(bs)[1]) = "yes" /\ D.c[c].kind \in {"wait", "authwait"} IN
    seen' = [seen EXCEPT
        !.yes = @ \cup IF yes THEN {c} ELSE {},
        !.leak = @ \cup (IF ~was /\ ~yes /\ (LinesOf(r.cl) # <<>> \/ \E i \in 1..Len(r.srv) : Cmd(r.srv[i]) \notin {"PASS", "CONNECT"}) THEN {c} ELSE {})
                   \cup (IF c \notin seen.yes /\ ~yes /\ \E i \in 1..Len(r.srv) : Cmd(r.srv[i]) # "PASS" THEN {c} ELSE {}),
        !.said[c] = IF ~back /\ was THEN @ \o ReadAll(bs) ELSE @,
        !.up[c] = IF ~back /\ was THEN @ \o r.srv ELSE @,
        !.told[c] = IF back /\ was THEN @ \o ReadAll(bs) ELSE IF back /\ is THEN @ \o Tail(ReadAll(bs)) ELSE @,
        !.down[c] = @ \o LinesOf(r.cl)]
Open(c) == c \notin DOMAIN D.c /\ (c = "k2" => "k1" \in DOMAIN D.c) /\ D' = Fresh(D, c) /\ hist' = Append(hist, <<"open", c>>) /\ UNCHANGED seen
Here(c) == c \in DOMAIN D.c /\ D.c[c].kind # "gone"
Send(c, bs) == Here(c) /\ LET r == Receive(D, E, I, c, bs) IN D' = r.d /\ Note(r, c, bs, FALSE) /\ hist' = Append(hist, <<"data", c, bs>>)
Back(c, bs) == Here(c) /\ D.c[c].b # 0 /\ LET r == Answer(D, c, bs) IN D' = r.d /\ Note(r, c, bs, TRUE) /\ hist' = Append(hist, <<"back", D.c[c].b, bs>>)
Close(c) == Here(c) /\ D' = Hangup(D, c).d /\ hist' = Append(hist, <<"close", c>>) /\ UNCHANGED seen
BClose(c) == Here(c) /\ D.c[c].b # 0 /\ D' = Hangup(D, c).d /\ hist' = Append(hist, <<"bclose", D.c[c].b>>) /\ UNCHANGED seen
Next ==
    /\ Len(hist) < Depth
    /\ \E c \in Conns : Open(c) \/ (\E b \in Msgs : Send(c, b)) \/ (\E b \in Backs : Back(c, b)) \/ Close(c) \/ BClose(c)
    /\ IF Gen THEN PrintT(ToJson(hist')) ELSE TRUE
Spec == Init /\ [][Next]_<<D, seen, hist>>
Vw == <<D, seen>>

\* nobody is bridged before the proxy agreed, and nothing crosses before
Gated == \A c \in DOMAIN D.c : D.c[c].kind \in {"live", "req"} => c \in seen.yes
Sealed == seen.leak = {}
\* everything said while bridged is passed on, in order, once
Faithful == \A c \in Conns : seen.up[c] = seen.said[c] /\ seen.down[c] = seen.told[c]
\* every proxy talks to one connection
Paired == \A c, d \in DOMAIN D.c : c # d /\ D.c[c].b # 0 => D.c[c].b # D.c[d].b
=============================================================================
