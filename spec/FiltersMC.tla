----------------------------- MODULE FiltersMC -----------------------------
(* Every way of registering and removing a few filters and hooks, with lines  *)
(* in both directions and clients coming and going in between.                *)
EXTENDS Filters, Json
CONSTANTS Which, Depth, Gen
VARIABLES W, F, hist

AL == "al!x@y"
cfg == [n \in {"A", "B"} |-> [report |-> FALSE, offset |-> 0, autocmd |-> <<>>, join |-> <<>>]]
AddF(kind, name, prio, veto) == <<"add", kind, name, prio, veto>>
Adds ==
    IF Which = "flt"
    THEN {AddF("server", "s1", 5, {}), AddF("server", "s2", -3, {"hi"}), AddF("server", "s3", 900, {"NOTICE"}), AddF("server", "s4", 5, {}), AddF("log", "g1", 7, {"hi"}), AddF("log", "g2", 2000, {})}
    ELSE {AddF("newc", "h1", 0, {}), AddF("newc", "h2", 0, {"me"}), AddF("newc", "h3", 0, {}), AddF("lose", "e1", 0, {}), AddF("lose", "e2", 0, {}), AddF("server", "s1", 1, {"you"})}
Dels == {<<"del", a[2], a[3]>> : a \in Adds}
Lines ==
    {<<"srv", "A", l>> : l \in IF Which = "flt" THEN {<<AL, "PRIVMSG", "me", "hi">>, <<AL, "NOTICE", "me", "x">>, <<"irc.A", "372", "me", "hi">>, <<"", "PING", "hi">>, <<AL, "PRIVMSG", "me", "\tVERSION\t">>}
                               ELSE {<<AL, "PRIVMSG", "me", "hi">>}}
    \cup {<<"cli", "c1", l>> : l \in IF Which = "flt" THEN {<<"", "PRIVMSG", "al", "hi">>, <<"", "NOTICE", "al", "z">>} ELSE {<<"", "PRIVMSG", "al", "hi">>, <<"", "QUIT">>}}
Attaches == {<<"attach", "c1", "A", "me", "c1">>} \cup (IF Which = "hook" THEN {<<"attach", "c2", "A", "you", "c2">>, <<"attach", "c3", "B", "me", "c3">>} ELSE {})
Detaches == IF Which = "hook" THEN {<<"detach", "c1">>, <<"detach", "c2">>} ELSE {}
Alphabet == Adds \cup Dels \cup Lines \cup Attaches \cup Detaches

W0 == LET up(n) == FromServer(Connected([nets |-> [x \in {"A", "B"} |-> [st |-> InitState("", "", ""), phase |-> "off", q |-> <<>>, order |-> <<>>]],
                                         cl |-> [c \in {} |-> 0]], n, "me", "user", "proxy.host").w, cfg, n, <<"irc.A", "376", "me", "End">>, 0).w.nets[n]
      IN [nets |-> [n \in {"A", "B"} |-> up(n)], cl |-> [c \in {} |-> 0]]
Init == W = W0 /\ F = NoFilters /\ hist = <<>>
Attached(c) == c \in DOMAIN W.cl /\ W.cl[c].net # NONE
NamesOf(kind) == IF kind \in {"server", "log"} THEN {f.name : f \in F[kind]} ELSE Range(Names(F[kind]))
Enabled(op) ==
    CASE op[1] = "add" -> op[3] \notin NamesOf(op[2])
      [] op[1] = "del" -> op[3] \in NamesOf(op[2])
      [] op[1] = "attach" -> op[2] \notin DOMAIN W.cl
      [] op[1] \in {"detach", "cli"} -> Attached(op[2])
      [] OTHER -> TRUE
Run(op) ==
    CASE op[1] = "srv" -> FilterFromServer(W, cfg, F, op[2], op[3], 0)
      [] op[1] = "cli" -> IF Cmd(op[3]) = "QUIT" THEN FilterDetach(W, F, op[2]) ELSE FilterFromClient(W, cfg, F, op[2], op[3], 0)
      [] op[1] = "attach" -> FilterAttach(W, cfg, F, op[2], op[3], op[4], op[5], "localhost")
      [] op[1] = "detach" -> FilterDetach(W, F, op[2])
      [] OTHER -> [w |-> W, out |-> NoOut(W), offers |-> <<>>]
Next ==
    /\ Len(hist) < Depth
    /\ \E op \in Alphabet :
        /\ Enabled(op)
        /\ W' = Run(op).w
        /\ F' = CASE op[1] = "add" -> Add(F, op[2], [name |-> op[3], prio |-> op[4], veto |-> op[5]])
                  [] op[1] = "del" -> Del(F, op[2], op[3])
                  [] OTHER -> F
        /\ hist' = Append(hist, op)
        /\ IF Gen THEN PrintT(ToJson(hist')) ELSE TRUE
vars == <<W, F, hist>>
Spec == Init /\ [][Next]_vars
Vw == <<W, F>>

(* ---- said without the machinery above ---- *)
LastOp == hist'[Len(hist')]
R == Run(LastOp)
Bad(l) == \E f \in F.server : f.veto \cap Range(l) # {}
Reaches == {c \in DOMAIN R.out.cl : R.out.cl[c] # <<>>}
StepOk ==
    LET op == LastOp IN
    CASE op[1] = "srv" ->
           LET l == op[3] here == Range(W.nets["A"].order) IN
           \* what no filter rejects gets through, what one rejects does not (numerics are not its business)
           /\ (l[2] \in {"PRIVMSG", "NOTICE"} => Reaches = IF Bad(l) THEN {} ELSE here)
           /\ (l[2] = "372" => Reaches = {})
           /\ (l[2] = "PING" => R.out.srv["A"] = IF Bad(<<"", "PONG", "hi">>) THEN <<>> ELSE <<<<"", "PONG", "hi">>>>)
           /\ \E i \in 1..Len(R.offers) : R.offers[i].kind = "log" /\ R.offers[i].line = l
      [] op[1] = "cli" -> (op[3][2] # "QUIT" => R.out.srv["A"] = IF Bad(op[3]) THEN <<>> ELSE <<op[3]>>)
      [] op[1] = "attach" ->
           LET no == \E i \in 1..Len(F.newc) : (IF op[3] = "A" THEN "me" ELSE "me") \in F.newc[i].veto IN
           /\ (no <=> op[2] \notin Range(R.w.nets[op[3]].order))
           /\ (no => Len(R.lost) = Len(F.lose))
      [] OTHER -> TRUE
\* a filter goes only when it is removed
OthersStay ==
    \A k \in DOMAIN F : LET old == IF k \in {"server", "log"} THEN F[k] ELSE Range(F[k])
                            new == IF k \in {"server", "log"} THEN F'[k] ELSE Range(F'[k])
                        IN old \ new = {f \in old : LastOp = <<"del", k, f.name>>}
Steps == [][StepOk /\ OthersStay]_vars
=============================================================================
