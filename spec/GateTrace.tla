----------------------------- MODULE GateTrace -----------------------------
(* Recorded bytes of connections to the listeners, under any fragmentation.   *)
EXTENDS Gate, TraceLib
VARIABLES l, W, G, L, H, cfg, skip, sc

Nil == [x \in {} |-> 0]
Init == l = 1 /\ W = [nets |-> Nil, cl |-> Nil] /\ G = Nil /\ L = Nil /\ H = Nil /\ cfg = Nil /\ skip = TRUE /\ sc = -1
Row(q, k) == q[CHOOSE i \in 1..Len(q) : q[i][1] = k]
Keys(q) == {q[i][1] : i \in 1..Len(q)}
Got(e, p, none) == LET I == {i \in 1..Len(e.out) : e.out[i][1] = p} IN IF I = {} THEN none ELSE e.out[CHOOSE i \in I : TRUE][2]

\* the proxy tells logged in clients what it is doing; that is not the business of this specification
Log(x) == x # NoLine /\ Cmd(x) = "NOTICE" /\ Arg(x, 1) = "*"
NextLine(bs) == LET i == Pos(bs, {LF}) IN IF i = 0 THEN NoLine ELSE ReadLine(Take(bs, i - 1))
AfterLine(bs) == LET i == Pos(bs, {LF}) IN Drop(bs, i)
\* a whole welcome: 001 to the nick asked for, once, and the end of the MOTD; -1 if there is none, else what follows it
RECURSIVE Rest(_)
Rest(bs) == LET x == NextLine(bs) IN
            IF x = NoLine THEN <<-1>> ELSE IF Cmd(x) \in {"422", "376"} THEN AfterLine(bs)
            ELSE IF Cmd(x) \in {"001", "451", "461", "462", "464", "PRIVMSG", "NICK"} THEN <<-1>> ELSE Rest(AfterLine(bs))
Welcome(bs, nick) ==
    LET x == NextLine(bs) IN
    IF x = NoLine \/ Cmd(x) # "001" \/ Arg(x, 1) # nick THEN <<-1>> ELSE Rest(AfterLine(bs))
RECURSIVE NickTold(_, _, _)
NickTold(bs, old, new) ==
    LET x == NextLine(bs) IN
    IF x = NoLine THEN <<-1>> ELSE IF Log(x) THEN NickTold(AfterLine(bs), old, new)
    ELSE IF Cmd(x) = "NICK" /\ OriginNick(x) = old /\ Arg(x, 1) = new THEN AfterLine(bs) ELSE <<-1>>
\* the proxy speaks to its clients under its own name or that of the network
Own(x) == IF x[1] \in DOMAIN W.nets \cup {"proxy.host"} THEN WithOrigin(x, "") ELSE x
Remark(x) == Respcode(x) >= 400
AdminSays(x) == Cmd(x) \in {"NOTICE", "PRIVMSG"} /\ OriginNick(x) = "ctrlproxy"
RECURSIVE SkipAdmin(_)
SkipAdmin(bs) == LET x == NextLine(bs) IN IF x # NoLine /\ AdminSays(x) THEN SkipAdmin(AfterLine(bs)) ELSE bs
RECURSIVE Fits(_, _)
Fits(items, bs) ==
    IF bs # <<>> /\ Log(NextLine(bs)) THEN Fits(items, AfterLine(bs))
    ELSE IF items = <<>> THEN bs = <<>>
    ELSE LET it == Head(items) x == NextLine(bs) IN
         CASE it[1] = "bytes" -> Len(bs) >= Len(it[2]) /\ Take(bs, Len(it[2])) = it[2] /\ Fits(Tail(items), Drop(bs, Len(it[2])))
           [] it[1] = "granted" -> Len(bs) >= 10 /\ Take(bs, 4) = <<5, 0, 0, 1>> /\ Fits(Tail(items), Drop(bs, 10))
           [] it[1] = "cmd" -> x # NoLine /\ ((Cmd(x) = it[2] /\ Fits(Tail(items), AfterLine(bs))))
           [] it[1] = "line" -> x # NoLine /\ ((Own(x) = Own(it[2]) /\ Fits(Tail(items), AfterLine(bs))))
           [] it[1] = "maybe" -> Fits(Tail(items), bs) \/ (x # NoLine /\ Cmd(x) = it[2] /\ Fits(Tail(items), AfterLine(bs)))
           [] it[1] = "admin" -> Fits(Tail(items), SkipAdmin(bs))
           [] it[1] = "offline" -> Fits(Tail(items), bs) \/ (x # NoLine /\ Remark(x) /\ Fits(Tail(items), AfterLine(bs)))
           [] OTHER -> LET r == Welcome(bs, it[2]) t == IF it[3] = NONE THEN r ELSE NickTold(r, it[2], it[3]) IN r # <<-1>> /\ t # <<-1>> /\ Fits(Tail(items), t)

Result(e) ==
    CASE e.e = "data" -> LET r == Receive(W, G, L, H, cfg, e.c, e.bytes, e.now) IN [w |-> r.w, g |-> r.g, out |-> r.out, items |-> [x \in {e.c} |-> r.items]]
      [] e.e = "open" -> [w |-> W, g |-> [x \in DOMAIN G \cup {e.c} |-> IF x = e.c THEN Fresh(e.port) ELSE G[x]], out |-> NoOut(W), items |-> Nil]
      [] e.e = "close" -> LET r == Hangup(W, G, e.c) IN [w |-> r.w, g |-> r.g, out |-> NoOut(W), items |-> Nil]
      [] e.e = "srv" -> LET r == FromServer(W, cfg, e.net, e.line, e.now) IN [w |-> r.w, g |-> G, out |-> r.out, items |-> Nil]
      [] e.e = "lost" -> LET r == Lost(W, e.net) IN [w |-> r.w, g |-> G, out |-> r.out, items |-> Nil]
      [] e.e = "conn" -> LET r == Connected(W, e.net, e.nick, e.user, e.host) IN [w |-> r.w, g |-> G, out |-> r.out, items |-> Nil]
      [] OTHER -> [w |-> W, g |-> G, out |-> NoOut(W), items |-> Nil]
Items(r, c) == (IF c \in DOMAIN r.items THEN r.items[c] ELSE <<>>)
               \o (IF c \in DOMAIN r.out.cl THEN [i \in 1..Len(r.out.cl[c]) |-> <<"line", r.out.cl[c][i]>>] ELSE <<>>)
\* being brought up to date after the login of the network is the business of View
Loose(e, c) == e.e \in {"srv", "lost"} /\ c \in DOMAIN G /\ G[c].kind = "in" /\ (W.nets[e.net].phase = "login" \/ e.e = "lost") /\ W.cl[c].net = e.net
CliOk(e, r) == \A c \in DOMAIN r.g : Loose(e, c) \/ Fits(Items(r, c), Got(e, c, <<>>))
SrvOk(e, r) == \A n \in DOMAIN r.w.nets : Got(e, n, <<>>) = r.out.srv[n] \/ (e.e = "srv" /\ W.nets[e.net].phase = "login")
ClosedOk(e, r) == {c \in DOMAIN G : G[c].kind # "gone" /\ r.g[c].kind = "gone"} = {e.closed[i] : i \in 1..Len(e.closed)} \/ e.e = "close"
Bad(e, r) == IF ~CliOk(e, r) THEN "client" ELSE IF ~SrvOk(e, r) THEN "server" ELSE IF ~ClosedOk(e, r) THEN "closed" ELSE ""
Step(e) ==
    IF e.e = "died" THEN Reject(sc, l, "died", e.op) /\ skip' = TRUE /\ UNCHANGED <<W, G>>
    ELSE LET r == Result(e) b == Bad(e, r) IN
         IF b = "" THEN W' = r.w /\ G' = r.g /\ UNCHANGED skip
         ELSE Reject(sc, l, b, [items |-> r.items, out |-> r.out, kinds |-> [c \in DOMAIN r.g |-> r.g[c].kind]]) /\ skip' = TRUE /\ UNCHANGED <<W, G>>
Next ==
    /\ l <= TraceLen
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.e = "reset"
       THEN /\ W' = [nets |-> [n \in Keys(e.nets) |-> [st |-> InitState("", "", ""), phase |-> "off", q |-> <<>>, order |-> <<>>]], cl |-> Nil]
            /\ cfg' = [n \in Keys(e.nets) |-> [report |-> FALSE, offset |-> 0, autocmd |-> <<>>, join |-> <<>>]]
            /\ H' = [n \in Keys(e.nets) |-> [host |-> Row(e.nets, n)[2], port |-> Row(e.nets, n)[3]]]
            /\ L' = [p \in Keys(e.listeners) |-> [pw |-> Row(e.listeners, p)[2], users |-> {Row(e.listeners, p)[3][i] : i \in 1..Len(Row(e.listeners, p)[3])}, net |-> Row(e.listeners, p)[4]]]
            /\ G' = Nil /\ skip' = FALSE /\ sc' = e.sc
       ELSE /\ UNCHANGED <<sc, cfg, H, L>>
            /\ IF skip THEN UNCHANGED <<W, G, skip>> ELSE Step(e)
    /\ IF l = TraceLen THEN Done(l) ELSE TRUE
Spec == Init /\ [][Next]_<<l, W, G, L, H, cfg, skip, sc>>
=============================================================================
