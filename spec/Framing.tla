------------------------------ MODULE Framing ------------------------------
(* Streams through the proxy: one server, some clients.  What a peer sends is *)
(* cut into lines however it arrives; every message (and everything else the *)
(* server says) is due to the others, in                                     *)
(* the order the lines became complete.  A peer that accepts data gets all    *)
(* that is due to it, one that does not gets it later.                        *)
(* F: [in: peer -> bytes of the unfinished line, due: peer -> bytes owed,     *)
(*     stalled: peers that accept nothing]                                    *)
EXTENDS Wire

SERVER == "s1"
W_PRIVMSG == <<80, 82, 73, 86, 77, 83, 71>>
W_NOTICE == <<78, 79, 84, 73, 67, 69>>
W_PING == <<80, 73, 78, 71>>
W_PONG == <<80, 79, 78, 71>>
NL == <<CR, LF>>
Fresh(ps) == [in |-> [p \in ps |-> <<>>], due |-> [p \in ps |-> <<>>], stalled |-> {}]
Message(f) == ~f.none /\ f.words[1] \in {W_PRIVMSG, W_NOTICE} /\ Len(f.words) >= 3
Ping(f) == ~f.none /\ f.words[1] = W_PING /\ Len(f.words) = 2
\* what one line of peer p makes due: peer -> bytes.  mask: how the clients are known, name: what the proxy calls itself
LineDue(ps, mask, name, p, bs) ==
    LET f == Form(bs) IN
    IF p = SERVER /\ ~f.none /\ ~Ping(f) THEN [x \in ps |-> IF x = SERVER THEN <<>> ELSE PrintForm(f) \o NL]
    ELSE IF Message(f) THEN
        [x \in ps |-> IF x = p THEN <<>>
                           ELSE IF x = SERVER THEN PrintForm([f EXCEPT !.has = FALSE]) \o NL
                           ELSE PrintForm([f EXCEPT !.has = TRUE, !.origin = mask[x]]) \o NL]
    ELSE IF Ping(f) THEN
        [x \in ps |-> IF x # p THEN <<>>
                      ELSE IF p = SERVER THEN W_PONG \o <<SP, COLON>> \o f.words[2] \o NL
                      ELSE <<COLON>> \o name \o <<SP>> \o W_PONG \o <<SP>> \o name \o <<SP, COLON>> \o f.words[2] \o NL]
    ELSE [x \in ps |-> <<>>]
RECURSIVE LinesDue(_, _, _, _, _)
LinesDue(ps, mask, name, p, ls) ==
    IF ls = <<>> THEN [x \in ps |-> <<>>]
    ELSE LET a == LineDue(ps, mask, name, p, Head(ls))
             b == LinesDue(ps, mask, name, p, Tail(ls))
         IN [x \in ps |-> a[x] \o b[x]]
\* bytes arrive from a peer
Arrive(F, mask, name, p, bs) ==
    LET c == CutLines(F.in[p] \o bs)
        d == LinesDue(DOMAIN F.in, mask, name, p, c.lines)
    IN [F EXCEPT !.in[p] = c.rest, !.due = [x \in DOMAIN @ |-> @[x] \o d[x]]]
Stall(F, p) == [F EXCEPT !.stalled = @ \cup {p}]
Resume(F, p) == [F EXCEPT !.stalled = @ \ {p}]
\* a peer takes the first n of the bytes that are due to it
Deliver(F, p, n) == [F EXCEPT !.due[p] = Drop(@, n)]
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ Take(b, Len(a)) = a
=============================================================================
