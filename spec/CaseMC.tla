------------------------------- MODULE CaseMC -------------------------------
(* Every pair of short names under every case mapping.                        *)
EXTENDS Case, Json
CONSTANTS Alphabet, Size, Gen
VARIABLES cm, a, b
Mappings == {"ascii", "rfc1459", "strict-rfc1459"}
Bytes == CASE Alphabet = 1 -> {64, 65, 90, 91, 92, 93, 94, 95, 96, 97, 122, 123, 124, 125, 126, 35}
           [] Alphabet = 2 -> {65, 97, 94, 126}
           [] Alphabet = 3 -> {91, 123, 95}
Names == UNION {[1..n -> Bytes] : n \in 0..Size}
Init == cm \in Mappings /\ a \in Names /\ b \in Names /\ IF Gen THEN PrintT(ToJson(<<cm, a, b>>)) ELSE TRUE
Next == UNCHANGED <<cm, a, b>>
Spec == Init /\ [][Next]_<<cm, a, b>>
S(x, y) == SameBytes(cm, x, y)
Equivalence == S(a, a) /\ (S(a, b) <=> S(b, a)) /\ (S(a, b) => \A c \in Names : S(b, c) => S(a, c))
\* names and their spelling in the other modules are compared alike
Agree == S(a, b) <=> Same(cm, Text(a), Text(b))
\* the smallest of the mappings is contained in the others
Ordered == (SameBytes("ascii", a, b) => SameBytes("strict-rfc1459", a, b)) /\ (SameBytes("strict-rfc1459", a, b) => SameBytes("rfc1459", a, b))
Bounded == /\ \A n \in 0..Size + 1 : SameUpto(cm, a, b, n + 1) => SameUpto(cm, a, b, n)
           /\ SameUpto(cm, a, b, 0)
           /\ S(a, b) <=> \A n \in 0..Size + 1 : SameUpto(cm, a, b, n)
=============================================================================
