-------------------------------- MODULE Irc --------------------------------
(* Lines, names and identities.                                              *)
(* A line is a tuple of strings <<origin, command, argument, ...>>; origin   *)
(* is "" when the line carries none.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ch(s, i) == SubSeq(s, i, i)
RECURSIVE StrCat(_)
StrCat(q) == IF q = <<>> THEN "" ELSE Head(q) \o StrCat(Tail(q))
RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
\* position of the first occurrence of a one character string, 0 if none
RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE IndexFrom(s, c, i + 1)
Index(s, c) == IndexFrom(s, c, 1)
Before(s, c) == LET i == Index(s, c) IN IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)
After(s, c) == LET i == Index(s, c) IN IF i = 0 THEN "" ELSE SubSeq(s, i + 1, Len(s))
RECURSIVE Split(_, _)
Split(s, c) == LET i == Index(s, c) IN IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)), c)
Chars(s) == [i \in 1..Len(s) |-> Ch(s, i)]
CharSet(s) == {Ch(s, i) : i \in 1..Len(s)}
Contains(s, c) == Index(s, c) # 0
NonEmpty(q) == SelectSeq(q, LAMBDA x : x # "")
DropAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
\* first index of a sequence satisfying P, 0 if none
FirstIdx(q, P(_)) == LET I == {i \in 1..Len(q) : P(q[i])} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
Range(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE SeqMap(_, _)
SeqMap(F(_), q) == IF q = <<>> THEN <<>> ELSE <<F(q[1])>> \o SeqMap(F, Tail(q))
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Flat(Tail(q))

(* ---- numbers ---- *)
DIGITS == "0123456789"
DigitVal == [c \in CharSet(DIGITS) |-> Index(DIGITS, c) - 1]
IsDigit(c) == c \in DOMAIN DigitVal
RECURSIVE NumFrom(_, _, _)
NumFrom(s, i, acc) == IF i > Len(s) \/ ~IsDigit(Ch(s, i)) THEN acc ELSE NumFrom(s, i + 1, acc * 10 + DigitVal[Ch(s, i)])
Num(s) == NumFrom(s, 1, 0)       \* value of the leading digits, as atoi() for unsigned text

(* ---- case mapping ---- *)
UPPER == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LOWER == "abcdefghijklmnopqrstuvwxyz"
AsciiLow == [c \in CharSet(UPPER) |-> LET i == Index(UPPER, c) IN SubSeq(LOWER, i, i)]
Rfc == [c \in {"[", "]", "\\", "^"} |-> CASE c = "[" -> "{" [] c = "]" -> "}" [] c = "\\" -> "|" [] c = "^" -> "~"]
FoldChar(cm, c) ==
    IF c \in DOMAIN AsciiLow THEN AsciiLow[c]
    ELSE IF cm = "ascii" THEN c
    ELSE IF cm = "strict-rfc1459" THEN IF c \in {"[", "]", "\\"} THEN Rfc[c] ELSE c
    ELSE IF c \in DOMAIN Rfc THEN Rfc[c] ELSE c
RECURSIVE FoldFrom(_, _, _)
FoldFrom(cm, s, i) == IF i > Len(s) THEN "" ELSE FoldChar(cm, Ch(s, i)) \o FoldFrom(cm, s, i + 1)
Fold(cm, s) == FoldFrom(cm, s, 1)
\* the relation "the same name" under case mapping cm ("" = none advertised: rfc1459)
Same(cm, a, b) == a = b \/ (Len(a) = Len(b) /\ Fold(cm, a) = Fold(cm, b))
RECURSIVE UpFrom(_, _)
UpChar == [c \in CharSet(LOWER) |-> LET i == Index(LOWER, c) IN SubSeq(UPPER, i, i)]
UpFrom(s, i) == IF i > Len(s) THEN "" ELSE (IF Ch(s, i) \in DOMAIN UpChar THEN UpChar[Ch(s, i)] ELSE Ch(s, i)) \o UpFrom(s, i + 1)
Up(s) == UpFrom(s, 1)            \* commands are case insensitive (ASCII)
SameBase(a, b) == a = b \/ (Len(a) = Len(b) /\ Up(a) = Up(b))

(* ---- lines ---- *)
Origin(l) == l[1]
Cmd(l) == Up(l[2])
NArgs(l) == Len(l) - 1                     \* counting the command, as the wire protocol's argc
Arg(l, i) == IF i + 2 <= Len(l) THEN l[i + 2] ELSE ""     \* Arg(l,0) is the command, Arg(l,1) the first parameter
HasArg(l, i) == i + 2 <= Len(l)
IsNumeric(l) == /\ Len(l[2]) = 3 /\ IsDigit(Ch(l[2], 1)) /\ IsDigit(Ch(l[2], 2)) /\ IsDigit(Ch(l[2], 3))
Respcode(l) == IF IsNumeric(l) THEN Num(l[2]) ELSE 0
OriginNick(l) == Before(l[1], "!")
WithOrigin(l, o) == <<o>> \o Tail(l)
SetArg(l, i, v) == [l EXCEPT ![i + 2] = v]
CTCPCH == "\t"      \* how the recorder writes the CTCP delimiter
IsChan(s) == Len(s) > 0 /\ Ch(s, 1) \in {"#", "&", "+", "!"}

(* ---- identities ---- *)
Mask(id) == id.nick \o "!" \o id.user \o "@" \o id.host
\* What a client is shown of a line the server sent, given the identity the proxy has on
\* the network (me) and the one this client knows for the user (cl), both [nick, user, host].
\* Only lines attributed to the user are altered.
RewriteUserhost(cm, txt, me, cl) ==
    LET ws == Split(txt, " ")
        One(w) == LET i == Index(w, "=") IN
                  IF i = 0 THEN w
                  ELSE LET n0 == SubSeq(w, 1, i - 1)
                           n == IF EndsWith(n0, "*") THEN SubSeq(n0, 1, Len(n0) - 1) ELSE n0
                       IN IF i < Len(w) /\ Same(cm, n, me.nick)
                          THEN n0 \o "=" \o Ch(w, i + 1) \o cl.user \o "@" \o cl.host ELSE w
    IN Join([i \in 1..Len(ws) |-> One(ws[i])], " ")
Rewrite(cm, l, me, cl) ==
    IF Same(cm, Mask(me), Mask(cl)) THEN l
    ELSE IF l[1] # "" /\ (Same(cm, OriginNick(l), me.nick) \/ (Cmd(l) = "NICK" /\ Same(cm, OriginNick(l), cl.nick)))
         THEN WithOrigin(l, Mask(cl))     \* (a nick change has reached the network's state, not yet the client's)
    ELSE CASE Respcode(l) = 302 /\ HasArg(l, 2) -> SetArg(l, 2, RewriteUserhost(cm, Arg(l, 2), me, cl))
           [] Respcode(l) = 352 /\ HasArg(l, 6) /\ Same(cm, Arg(l, 6), me.nick)
                -> SetArg(SetArg(l, 4, cl.host), 3, cl.user)
           [] Respcode(l) \in {311, 314} /\ HasArg(l, 4) /\ Same(cm, Arg(l, 2), me.nick)
                -> SetArg(SetArg(l, 4, cl.host), 3, cl.user)
           [] OTHER -> l
=============================================================================
