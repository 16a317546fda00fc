------------------------------- MODULE Wire --------------------------------
(* Bytes on a connection: cutting the stream into lines, reading a line and   *)
(* writing it.  Bytes are numbers; text is recorded as the traces do: the     *)
(* CTCP delimiter as a tab, other bytes outside of ASCII as {xx}.             *)
EXTENDS Irc

LF == 10
CR == 13
SP == 32
COLON == 58
ASCII == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
HEXD == "0123456789abcdef"
ByteText == [b \in 0..255 |-> IF b = 1 THEN "\t" ELSE IF b >= 32 /\ b <= 126 THEN Ch(ASCII, b - 31)
                              ELSE "{" \o Ch(HEXD, (b \div 16) + 1) \o Ch(HEXD, (b % 16) + 1) \o "}"]
RECURSIVE TextFrom(_, _)
TextFrom(bs, i) == IF i > Len(bs) THEN "" ELSE ByteText[bs[i]] \o TextFrom(bs, i + 1)
Text(bs) == TextFrom(bs, 1)
\* position of the first of the bytes S, 0 if none
RECURSIVE PosFrom(_, _, _)
PosFrom(bs, S, i) == IF i > Len(bs) THEN 0 ELSE IF bs[i] \in S THEN i ELSE PosFrom(bs, S, i + 1)
Pos(bs, S) == PosFrom(bs, S, 1)
Drop(bs, n) == SubSeq(bs, n + 1, Len(bs))
Take(bs, n) == SubSeq(bs, 1, n)

RECURSIVE SkipSpaces(_)
SkipSpaces(bs) == IF bs # <<>> /\ bs[1] = SP THEN SkipSpaces(Tail(bs)) ELSE bs
\* what is behind a carriage return (or a zero byte) does not belong to the line
Cut(bs) == LET i == Pos(bs, {0, LF, CR}) IN IF i = 0 THEN bs ELSE Take(bs, i - 1)
\* the words of a line: every blank separates, the word that begins with a colon is the last
RECURSIVE Words(_, _)
Words(bs, first) ==
    IF ~first /\ bs # <<>> /\ bs[1] = COLON THEN <<Text(Tail(bs))>>
    ELSE LET i == Pos(bs, {SP}) IN
         IF i = 0 THEN <<Text(bs)>> ELSE <<Text(Take(bs, i - 1))>> \o Words(Drop(bs, i), FALSE)
NoLine == <<>>
\* a line (without its end); NoLine if there is just an origin
ReadLine(bs) ==
    IF bs # <<>> /\ bs[1] = COLON
    THEN LET i == Pos(bs, {SP}) IN
         IF i = 0 THEN NoLine ELSE <<Text(SubSeq(bs, 2, i - 1))>> \o Words(Cut(SkipSpaces(Drop(bs, i))), TRUE)
    ELSE <<"">> \o Words(Cut(bs), TRUE)
(* ---- the form of a line, down to the byte ---- *)
RECURSIVE ByteWords(_, _)
\* the words and whether the last one was written with a colon
ByteWords(bs, first) ==
    IF ~first /\ bs # <<>> /\ bs[1] = COLON THEN [words |-> <<Tail(bs)>>, colon |-> TRUE]
    ELSE LET i == Pos(bs, {SP}) IN
         IF i = 0 THEN [words |-> <<bs>>, colon |-> FALSE]
         ELSE LET r == ByteWords(Drop(bs, i), FALSE) IN [r EXCEPT !.words = <<Take(bs, i - 1)>> \o @]
NoForm == [none |-> TRUE]
Form(bs) ==
    IF bs # <<>> /\ bs[1] = COLON
    THEN LET i == Pos(bs, {SP}) IN
         IF i = 0 THEN NoForm
         ELSE LET r == ByteWords(Cut(SkipSpaces(Drop(bs, i))), TRUE) IN
              [none |-> FALSE, has |-> TRUE, origin |-> SubSeq(bs, 2, i - 1), words |-> r.words, colon |-> r.colon]
    ELSE LET r == ByteWords(Cut(bs), TRUE) IN [none |-> FALSE, has |-> FALSE, origin |-> <<>>, words |-> r.words, colon |-> r.colon]
RECURSIVE JoinWords(_, _)
JoinWords(ws, colon) ==
    IF Len(ws) = 1 THEN (IF colon THEN <<COLON>> ELSE <<>>) \o ws[1]
    ELSE ws[1] \o <<SP>> \o JoinWords(Tail(ws), colon)
PrintForm(f) == (IF f.has THEN <<COLON>> \o f.origin \o <<SP>> ELSE <<>>) \o JoinWords(f.words, f.colon)
FormText(f) == <<Text(f.origin)>> \o [i \in 1..Len(f.words) |-> Text(f.words[i])]
\* the complete lines at the front of a stream, and what is left
RECURSIVE CutLines(_)
CutLines(bs) ==
    LET i == Pos(bs, {LF}) IN
    IF i = 0 THEN [lines |-> <<>>, rest |-> bs]
    ELSE LET r == CutLines(Drop(bs, i)) IN [lines |-> <<Take(bs, i - 1)>> \o r.lines, rest |-> r.rest]
=============================================================================
