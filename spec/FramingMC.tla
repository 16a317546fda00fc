----------------------------- MODULE FramingMC -----------------------------
(* Fixed streams, cut in every way, to peers that accept data in pieces.      *)
EXTENDS Framing, Json
CONSTANTS Depth, Gen, Script
VARIABLES F, sent, got, order, hist

ToBytes(s) == [i \in 1..Len(s) |-> CHOOSE b \in 0..255 : ByteText[b] = Ch(s, i)]
Peers == {"s1", "c1", "c2"}
NAME == ToBytes("netA")
MASK == [x \in Peers |-> ToBytes("me!u" \o "@localhost")]
N1(s) == ToBytes(s) \o <<10>>
N2(s) == ToBytes(s) \o NL
Streams == CASE Script = 1 -> [s1 |-> N2(":a!b@c PRIVMSG me :x") \o N1("PING t"), c1 |-> N1("PRIVMSG #x y") \o N2(":z NOTICE q :a b"), c2 |-> N2("PING :w")]
             [] Script = 2 -> [s1 |-> N1(":srv   NOTICE me  :") \o N2(":a PRIVMSG #x ::y"), c1 |-> <<13, 10>> \o N2("PRIVMSG  #x :y z"), c2 |-> N1("NOTICE b :x")]
             [] OTHER -> [s1 |-> N2(":lonely") \o N2(":srv PRIVMSG me t") \o N2("PING :a b"), c1 |-> N1("PRIVMSG #x :1") \o N1("PRIVMSG #x :2") \o N1("PRIVMSG #x :3"), c2 |-> ToBytes("PING x") \o <<13>> \o ToBytes("y") \o <<10>>]
Init == F = Fresh(Peers) /\ sent = [p \in Peers |-> 0] /\ got = [p \in Peers |-> <<>>] /\ order = <<>> /\ hist = <<>>
\* cut right before or behind an interesting byte
Cuts(s, from) == {i \in (from + 1)..Len(s) : i = Len(s) \/ s[i] \in {CR, LF} \/ (i > from /\ i < Len(s) /\ s[i + 1] \in {LF, COLON}) \/ i = from + 3}
\* everyone who accepts data takes all there is
TakesAll(G) == /\ F' = [G EXCEPT !.due = [p \in Peers |-> IF p \in G.stalled THEN @[p] ELSE <<>>]]
               /\ got' = [p \in Peers |-> IF p \in G.stalled THEN got[p] ELSE got[p] \o G.due[p]]
Data(p, to) ==
    LET bs == SubSeq(Streams[p], sent[p] + 1, to) IN
    /\ TakesAll(Arrive(F, MASK, NAME, p, bs))
    /\ sent' = [sent EXCEPT ![p] = to]
    \* the lines of all streams, in the order they became complete, told from the whole streams
    /\ order' = order \o [i \in 1..Cardinality({j \in (sent[p] + 1)..to : Streams[p][j] = LF}) |-> p]
    /\ hist' = Append(hist, <<"data", p, bs>>)
\* a peer that is slow takes part of it
Some(p) == /\ p \in F.stalled /\ Len(F.due[p]) > 3 /\ hist[Len(hist)][1] = "data"
           /\ F' = Deliver(F, p, 3) /\ got' = [got EXCEPT ![p] = @ \o Take(F.due[p], 3)]
           /\ hist' = Append(hist, <<"some", p>>) /\ UNCHANGED <<sent, order>>
Toggle(p) == /\ TakesAll(IF p \in F.stalled THEN Resume(F, p) ELSE Stall(F, p))
             /\ hist' = Append(hist, <<"stall", p, p \notin F.stalled>>) /\ UNCHANGED <<sent, order>>
Next == /\ Len(hist) < Depth
        /\ (\E p \in Peers : (\E to \in Cuts(Streams[p], sent[p]) : Data(p, to)) \/ Some(p) \/ (p # "c2" /\ Toggle(p)))
        /\ IF Gen THEN PrintT(ToJson(hist')) ELSE TRUE
Spec == Init /\ [][Next]_<<F, sent, got, order, hist>>
Vw == <<F, sent, got, order>>

\* what was delivered and is due, told from the lines of the whole streams
RECURSIVE LineAt(_, _)
LineAt(s, n) == LET i == Pos(s, {LF}) IN IF n = 1 THEN Take(s, i - 1) ELSE LineAt(Drop(s, i), n - 1)
RECURSIVE Told(_, _)
Told(x, k) == IF k = 0 THEN <<>>
              ELSE LET p == order[k] n == Cardinality({j \in 1..k : order[j] = p})
                   IN Told(x, k - 1) \o LineDue(Peers, MASK, NAME, p, LineAt(Streams[p], n))[x]
Faithful == \A x \in Peers : got[x] \o F.due[x] = Told(x, Len(order))
=============================================================================
