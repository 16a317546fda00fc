-------------------------------- MODULE Case --------------------------------
(* When two names are the same, down to the byte.                             *)
EXTENDS Wire
\* unknown case mappings are taken for rfc1459
FoldByte(cm, b) ==
    LET top == CASE Up(cm) = "ASCII" -> 90 [] Up(cm) = "STRICT-RFC1459" -> 93 [] OTHER -> 94
    IN IF b >= 65 /\ b <= top THEN b + 32 ELSE b
FoldBytes(cm, bs) == [i \in 1..Len(bs) |-> FoldByte(cm, bs[i])]
SameBytes(cm, a, b) == Len(a) = Len(b) /\ FoldBytes(cm, a) = FoldBytes(cm, b)
Upto(bs, n) == IF Len(bs) <= n THEN bs ELSE Take(bs, n)
\* what a comparison of the first n characters says; all of them if n is negative
SameUpto(cm, a, b, n) == IF n < 0 THEN SameBytes(cm, a, b) ELSE SameBytes(cm, Upto(a, n), Upto(b, n))
=============================================================================
