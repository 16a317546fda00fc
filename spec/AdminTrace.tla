------------------------------ MODULE AdminTrace ------------------------------
(* Recorded histories of administration, saving and restarting.               *)
(* Every event but the first carries what the configuration (cfg) and the     *)
(* networks (live) are afterwards.                                            *)
EXTENDS Admin, TraceLib
VARIABLES l, A, skip, sc

(* --------------------------------------------------------- as recorded -> as specified *)
At(s, k) == s[CHOOSE i \in DOMAIN s : s[i].name = k]
NamesOf(s) == {s[i].name : i \in DOMAIN s}
NetOf(r) == [nick |-> r.nick, full |-> r.full, user |-> r.user, pass |-> r.pass, where |-> r.where, kind |-> r.kind, servers |-> r.servers,
             auto |-> r.auto, implicit |-> r.implicit, skipfirst |-> r.skipfirst, speed |-> r.speed, interval |-> r.interval, cmds |-> r.cmds,
             chans |-> [x \in NamesOf(r.chans) |-> LET y == At(r.chans, x) IN [key |-> y.key, join |-> y.join]], own |-> FALSE]
Cfg(r) == [g |-> r.g, nets |-> [n \in NamesOf(r.nets) |-> NetOf(At(r.nets, n))], lsts |-> r.lsts]
\* where networks are kept is not to be seen in use
NoOwn(c) == [c EXCEPT !.nets = [n \in DOMAIN c.nets |-> [c.nets[n] EXCEPT !.own = FALSE]]]
Live(r) == [n \in NamesOf(r) |-> LET y == At(r, n) IN
              [st |-> y.st, in |-> y.in, state |-> y.state, nick |-> y.nick, chanseq |-> [i \in DOMAIN y.chans |-> y.chans[i].name],
               chans |-> [x \in NamesOf(y.chans) |-> At(y.chans, x).key]]]
Order(r) == [i \in DOMAIN r |-> r[i].name]

DefaultG == [x \in {"autosave", "create-implicit", "admin-log", "learn-nickserv", "learn-network-name"} |-> <<"true">>]
    @@ [x \in {"auto-away-enable", "listener-auto"} |-> <<"false">>]
    @@ [x \in {"report-time-offset", "max_who_age", "listener-autoport"} |-> <<"0">>]
    @@ [x \in {"auto-away-time", "auto-away-client-limit"} |-> <<"-1">>]
    @@ ("report-time" :> <<"always">>) @@ ("logging" :> <<"none">>)
    @@ [x \in {"password", "default-nick", "default-username", "default-fullname", "replication", "default-client-charset", "admin-user",
               "auto-away-message", "auto-away-nick"} |-> <<>>]
AllTried(c) == [c EXCEPT !.nets = [n \in DOMAIN @ |-> IF Bare(c, n) THEN [c.nets[n] EXCEPT !.auto = FALSE] ELSE c.nets[n]]]
\* what was written by hand in the directory
Wanted(e) == LET w == Cfg(e.want) IN [w EXCEPT !.g = [x \in DOMAIN e.cfg.g |-> IF x \in DOMAIN w.g THEN w.g[x]
                                                        ELSE IF x \in DOMAIN DefaultG THEN DefaultG[x] ELSE e.cfg.g[x]]]

Start(e) == [c |-> Cfg(e.cfg), L |-> Live(e.live), order |-> Order(e.live), home |-> "~", exact |-> Has(e, "exact"), dirs |-> ("~" :> Cfg(e.cfg)), run |-> e.run]

(* ----------------------------------------------------------------- the events *)
\* a connection lost takes its state into the configuration; a login makes a network one to keep
RECURSIVE EnvSet(_, _, _, _)
EnvSet(c, L, M, ns) ==
    IF ns = {} THEN c
    ELSE LET n == CHOOSE x \in ns : TRUE
             c1 == IF n \in DOMAIN L /\ L[n].in /\ ~M[n].in THEN Learn(c, n, L[n]) ELSE c
             c2 == IF M[n].in THEN [c1 EXCEPT !.nets[n].implicit = FALSE] ELSE c1
         IN EnvSet(c2, L, M, ns \ {n})
Fresh(c, e) == IF Has(e, "made") /\ e.made \notin DOMAIN c.nets
               THEN AddNet(c, e.made, [NewNet EXCEPT !.implicit = TRUE, !.servers = <<NewServer(e.made, "6667", <<>>)>>]) ELSE c
\* a network without servers may have been tried
MaybeTried(c, r) == [c EXCEPT !.nets = [n \in DOMAIN @ |-> IF n \in DOMAIN r.nets /\ Bare(c, n) /\ ~r.nets[n].auto
                                                          THEN [c.nets[n] EXCEPT !.auto = FALSE] ELSE c.nets[n]]]
Env(c, L, M, e) == LET c1 == MaybeTried(Fresh(c, e), Cfg(e.cfg)) IN EnvSet(c1, L, M, DOMAIN c1.nets \cap DOMAIN M)

\* A known limitation: the passwords and bind addresses of a server listed twice are kept in one place.  They are
\* not judged then, unless the scenario is about them.
Blur(c) == IF A.exact \/ ~Ambiguous(c) THEN c
           ELSE [c EXCEPT !.nets = [n \in DOMAIN @ |-> [c.nets[n] EXCEPT !.servers = [i \in DOMAIN @ |-> [c.nets[n].servers[i] EXCEPT !.pass = <<>>, !.bind = <<>>]]]]]
\* what a directory gives, given what it is said to give
SameAs(saved, got) == IF A.exact \/ ~Ambiguous(saved) THEN NoOwn(saved) = got
                      ELSE NoOwn(Blur(saved)) = [got EXCEPT !.nets = [n \in DOMAIN @ |-> [@[n] EXCEPT !.servers = [i \in DOMAIN @ |-> [@[i] EXCEPT !.pass = <<>>, !.bind = <<>>]]]]]
\* where two configurations differ
FieldDiff(n, x, y) == {<<n, f, x[f], y[f]>> : f \in {k \in DOMAIN x : x[k] /= y[k]}}
Diff(x, y) == <<{<<k, x.g[k], y.g[k]>> : k \in {j \in DOMAIN x.g : x.g[j] /= y.g[j]}},
                <<DOMAIN x.nets, DOMAIN y.nets>>,
                UNION {FieldDiff(n, x.nets[n], y.nets[n]) : n \in DOMAIN x.nets \cap DOMAIN y.nets},
                IF x.lsts = y.lsts THEN <<>> ELSE <<x.lsts, y.lsts>>>>
Ok(a) == [a |-> a, why |-> "", exp |-> ""]
Bad(w, x) == [a |-> A, why |-> w, exp |-> x]
SameNets(M, c) == DOMAIN M = DOMAIN c.nets

LowerOf(t) == CASE t = "Adm" -> "adm" [] OTHER -> t      \* of the names used here

ToBag(s) == [x \in Range(s) |-> Cardinality({i \in DOMAIN s : s[i] = x})]
Answered(r, e) ==
    \/ r.out = ANY
    \/ e.out = r.out
    \/ e.lw /= <<>> /\ e.lw[1] = "listlistener" /\ ToBag(e.out) = ToBag(r.out)
\* only connecting and disconnecting says anything to servers, and never the command itself
Quiet(e, r) ==
    /\ \A i \in DOMAIN e.srv : e.srv[i].cmd \in {"NICK", "USER", "PASS", "QUIT"} /\ e.srv[i].net \in DOMAIN r.st \cup {x \in {e.x.net} : r.bye}
    /\ \A i \in DOMAIN e.oth : ~e.oth[i].answer /\ (DOMAIN r.st /= {} \/ r.run /= A.run)

OfCommand(e) ==
    LET r == Command(A.c, A.L, A.run, A.order, e.x, e.w, e.lw)
        M == Live(e.live)
        \* the client may go, which ends nothing but its own connection
    IN IF ~Answered(r, e) THEN Bad("answer", r.out)
       ELSE IF NoOwn(r.c) /= Cfg(e.cfg) THEN Bad("configuration", Diff(NoOwn(r.c), Cfg(e.cfg)))
       ELSE IF ~(\A n \in DOMAIN A.L \cup DOMAIN M :
                   IF n \in DOMAIN r.st THEN (IF r.st[n] = {} THEN n \notin DOMAIN M ELSE n \in DOMAIN M /\ M[n].st \in r.st[n])
                   ELSE n \in DOMAIN A.L /\ n \in DOMAIN M /\ M[n].st = A.L[n].st) THEN Bad("networks", r.st)
       ELSE IF e.gone /= r.bye THEN Bad("client", r.bye)
       ELSE IF ~Quiet(e, r) THEN Bad("leak", "")
       ELSE Ok([A EXCEPT !.c = r.c, !.L = M, !.order = Order(e.live), !.run = r.run,
                         !.dirs = IF r.saved = <<>> THEN @ ELSE (r.saved[1] :> Kept(r.c)) @@ @])
OfEnv(e) ==
    LET M == Live(e.live) c1 == Env(A.c, A.L, M, e)
    IN IF NoOwn(c1) /= Cfg(e.cfg) THEN Bad("configuration", Diff(NoOwn(c1), Cfg(e.cfg)))
       ELSE Ok([A EXCEPT !.c = c1, !.L = M, !.order = Order(e.live)])
\* an ordinary message, passed on as it is if there is a server; or a command, if it is to the administration user
OfMsg(e) ==
    IF A.c.g["admin-user"] /= <<>> /\ LowerOf(A.c.g["admin-user"][1]) = e.tol THEN OfCommand(e)
    ELSE IF e.sent /= (IF e.x.net \in DOMAIN A.L /\ A.L[e.x.net].in THEN <<e.line>> ELSE <<>>) THEN Bad("forwarded", e.line)
    ELSE IF e.out /= <<>> THEN Bad("answer", "")
    ELSE IF Cfg(e.cfg) /= NoOwn(A.c) THEN Bad("configuration", Diff(NoOwn(A.c), Cfg(e.cfg)))
    ELSE Ok([A EXCEPT !.L = Live(e.live)])
OfSave(e) ==
    LET c1 == Update(A.c, Given(A.L))
    IN IF NoOwn(c1) /= Cfg(e.cfg) THEN Bad("configuration", Diff(NoOwn(c1), Cfg(e.cfg)))
       ELSE Ok([A EXCEPT !.c = c1, !.L = Live(e.live), !.dirs = (A.home :> Kept(c1)) @@ @])
OfLoad(e) ==
    IF ~SameAs(A.dirs[e.dir], Cfg(e.got)) THEN Bad("loaded", Diff(NoOwn(A.dirs[e.dir]), Cfg(e.got))) ELSE Ok(A)
OfQuit(e) ==        \* the directory is written at the end, if so configured
    Ok([A EXCEPT !.dirs = IF A.c.g["autosave"] = <<"true">> THEN (A.home :> Kept(A.c)) @@ @ ELSE @])
OfRestart(e) ==
    LET c1 == AllTried(A.dirs[e.dir])  M == Live(e.live)
        listed == [i \in DOMAIN c1.lsts |-> Where(c1.lsts[i])]
    IN IF ~SameAs(c1, Cfg(e.cfg)) THEN Bad("loaded", Diff(NoOwn(c1), Cfg(e.cfg)))
       ELSE IF DOMAIN M /= DOMAIN c1.nets THEN Bad("networks", c1)
       ELSE IF \E n \in DOMAIN M : (M[n].st /= NotConnected) /= (c1.nets[n].auto /\ (c1.nets[n].servers /= <<>> \/ c1.nets[n].kind /= "tcp"))
            THEN Bad("connected at startup", c1)
       ELSE IF c1.g["listener-auto"] = <<"false">> /\ ToBag(e.run) /= ToBag(listed) THEN Bad("listening", listed)
       ELSE Ok([A EXCEPT !.c = IF Ambiguous(c1) THEN Cfg(e.cfg) ELSE c1, !.L = M, !.order = Order(e.live), !.home = e.dir, !.run = e.run])
Result(e) ==
    CASE e.e = "cmd" -> OfCommand(e)
      [] e.e = "env" -> OfEnv(e)
      [] e.e = "msg" -> OfMsg(e)
      [] e.e = "save" -> OfSave(e)
      [] e.e = "load" -> OfLoad(e)
      [] e.e = "quit" -> OfQuit(e)
      [] e.e = "restart" -> OfRestart(e)

Nothing == [c |-> <<>>, L |-> <<>>, order |-> <<>>, home |-> "~", exact |-> FALSE, dirs |-> <<>>, run |-> <<>>]
Init == l = 1 /\ A = Nothing /\ skip = TRUE /\ sc = -1
Step(e) ==
    IF e.e = "died" THEN Reject(sc, l, "died", e.op) /\ skip' = TRUE /\ UNCHANGED A
    ELSE LET r == Result(e) IN
         IF r.why = "" THEN A' = r.a /\ UNCHANGED skip
         ELSE Reject(sc, l, r.why, r.exp) /\ skip' = TRUE /\ UNCHANGED A
Begin(e) ==
    IF Has(e, "missing") THEN A' = Nothing /\ skip' = FALSE
    ELSE LET a == Start(e) IN
         /\ A' = [a EXCEPT !.c = AllTried(Wanted(e)), !.dirs = ("~" :> Wanted(e))]
         /\ IF NoOwn(AllTried(Wanted(e))) = a.c THEN skip' = FALSE ELSE Reject(e.sc, l, "loaded", Diff(NoOwn(AllTried(Wanted(e))), a.c)) /\ skip' = TRUE
Next ==
    /\ l <= TraceLen
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.e = "reset" THEN Begin(e) /\ sc' = e.sc
       ELSE /\ UNCHANGED sc
            /\ IF skip THEN UNCHANGED <<A, skip>> ELSE Step(e)
    /\ IF l = TraceLen THEN Done(l) ELSE TRUE
Spec == Init /\ [][Next]_<<l, A, skip, sc>>
=============================================================================
