------------------------------ MODULE Filters ------------------------------
(* Filters and hooks around the traffic of Mux.tla.                          *)
(* F = [server, log, newc, lose]: sets of [name, prio, veto] for filters,     *)
(* sequences of the same for hooks (in order of registration).  A filter      *)
(* rejects the lines that contain one of its words ("*": every line), a hook  *)
(* refuses the clients with one of the nicks.                                 *)
EXTENDS Mux

NoFilters == [server |-> {}, log |-> {}, newc |-> <<>>, lose |-> <<>>]
Words(l) == {l[i] : i \in 2..Len(l)}
Rejects(f, l) ==
    \/ "*" \in f.veto
    \/ \E w \in f.veto : \E x \in Words(l) : x = w
FiltersOk(fs, l) == \A f \in fs : ~Rejects(f, l)
LowerOk(fs, f, l) == \A g \in fs : g.prio < f.prio => ~Rejects(g, l)

Add(F, kind, f) == IF kind \in {"server", "log"} THEN [F EXCEPT ![kind] = @ \cup {f}] ELSE [F EXCEPT ![kind] = Append(@, f)]
Del(F, kind, name) ==
    IF kind \in {"server", "log"} THEN [F EXCEPT ![kind] = {f \in @ : f.name # name}]
    ELSE [F EXCEPT ![kind] = SelectSeq(@, LAMBDA f : f.name # name)]

(* A run of invocations inv (sequence of [name, ok]) is how the filters fs     *)
(* may have dealt with line l: in priority order, each at most once, nobody    *)
(* after the first one that rejects it, nobody left out before.                *)
RunOk(fs, l, inv) ==
    LET at(i) == CHOOSE f \in fs : f.name = inv[i].name IN
    /\ \A i \in 1..Len(inv) : \E f \in fs : f.name = inv[i].name
    /\ \A i, j \in 1..Len(inv) : i < j => inv[i].name # inv[j].name /\ at(i).prio <= at(j).prio
    /\ \A i \in 1..Len(inv) : inv[i].ok = ~Rejects(at(i), l)
    /\ \A i \in 1..Len(inv) : ~inv[i].ok => i = Len(inv)
    /\ IF inv # <<>> /\ ~inv[Len(inv)].ok
       THEN \A f \in fs : f.prio < at(Len(inv)).prio => \E i \in 1..Len(inv) : inv[i].name = f.name
       ELSE \A f \in fs : \E i \in 1..Len(inv) : inv[i].name = f.name

(* What is offered to whom: a sequence of [kind, dir, net, line].              *)
Offer(kind, dir, n, l) == [kind |-> kind, dir |-> dir, net |-> n, line |-> l]
RECURSIVE OffersTo(_, _, _)
OffersTo(F, n, ls) ==
    IF ls = <<>> THEN <<>>
    ELSE <<Offer("server", "to", n, Head(ls))>>
         \o (IF FiltersOk(F.server, Head(ls)) THEN <<Offer("log", "to", n, Head(ls))>> ELSE <<>>)
         \o OffersTo(F, n, Tail(ls))
Passed(F, ls) == SelectSeq(ls, LAMBDA l : FiltersOk(F.server, l))
\* lines for clients pass the server filters only when they are not replies and somebody is there to get them
Offered(W, n, l) ==
    /\ W.nets[n].phase = "up" /\ Respcode(l) = 0 /\ Cmd(l) \notin {"PING", "PONG"} /\ W.nets[n].order # <<>>

\* a line from the server: [w, out, offers]
FilterFromServer(W, cfg, F, n, l, now) ==
    LET r == FromServer(W, cfg, n, l, now)
        veto == Offered(W, n, l) /\ ~FiltersOk(F.server, l)
        to == r.out.srv[n]
    IN [w |-> IF veto THEN [r.w EXCEPT !.cl = W.cl] ELSE r.w,
        out |-> [r.out EXCEPT !.srv[n] = Passed(F, to), !.cl = IF veto THEN NoOut(W).cl ELSE @],
        offers |-> (IF W.nets[n].phase = "off" THEN <<>> ELSE <<Offer("log", "from", n, l)>>)
                   \o OffersTo(F, n, to)
                   \o (IF Offered(W, n, l) THEN <<Offer("server", "from", n, l)>> ELSE <<>>)]
\* a line from a client; what the other clients see of a line that is rejected is left open
FilterFromClient(W, cfg, F, c, l, now) ==
    LET r == FromClient(W, cfg, c, l, now)
        n == W.cl[c].net
        to == r.out.srv[n]
    IN [w |-> r.w,
        out |-> [r.out EXCEPT !.srv[n] = Passed(F, to),
                              !.loose = IF Passed(F, to) = to THEN @ ELSE DOMAIN r.w.cl],
        offers |-> OffersTo(F, n, to)]
\* the hooks are asked in order, up to the first one that refuses
RECURSIVE Asked(_, _)
Asked(hs, nick) ==
    IF hs = <<>> THEN <<>>
    ELSE LET ok == ~("*" \in Head(hs).veto \/ nick \in Head(hs).veto)
         IN <<[name |-> Head(hs).name, ok |-> ok]>> \o (IF ok THEN Asked(Tail(hs), nick) ELSE <<>>)
Welcome(F, nick) == \A i \in 1..Len(F.newc) : ~("*" \in F.newc[i].veto \/ nick \in F.newc[i].veto)
Names(hs) == [i \in 1..Len(hs) |-> hs[i].name]
FilterAttach(W, cfg, F, c, n, nick, user, host) ==
    LET r == Attach(W, cfg, c, n, nick, user, host)
        to == r.out.srv[n]
        ok == Welcome(F, r.w.cl[c].me.nick)
    IN [w |-> IF ok THEN r.w ELSE Detach(r.w, c),
        out |-> [r.out EXCEPT !.srv[n] = Passed(F, to)],
        offers |-> OffersTo(F, n, to),
        asked |-> Asked(F.newc, r.w.cl[c].me.nick),
        lost |-> IF ok THEN <<>> ELSE Names(F.lose),
        closed |-> IF ok THEN {} ELSE {c}]
FilterDetach(W, F, c) ==
    [w |-> Detach(W, c), out |-> [NoOut(W) EXCEPT !.loose = {c}], offers |-> <<>>, lost |-> Names(F.lose)]
=============================================================================
