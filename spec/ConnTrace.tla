----------------------------- MODULE ConnTrace -----------------------------
(* Recorded life cycles of the connection of one network: which connections   *)
(* were opened and closed, and what was sent over each of them.               *)
EXTENDS Conn, TraceLib
VARIABLES l, C, chk, skip, sc

Init == l = 1 /\ C = Fresh(<<>>, 0, "", "", "", "", "", <<>>, <<>>) /\ chk = "" /\ skip = TRUE /\ sc = -1
Start(e) == Fresh(e.servers, e.interval, e.nick, e.user, e.real, e.host, e.pass, e.autocmd, e.chans)
Member(D, c) == c \in DOMAIN D.W.cl /\ D.W.cl[c].net # NONE
None == NothingOut
Attached(r, e) ==
    IF ~e.welcomed THEN r
    ELSE LET a == Attach(r.c.W, Cfg(r.c), e.c, NET, e.nick, e.c, "localhost") IN
         [c |-> [r.c EXCEPT !.W = a.w], o |-> IF r.c.phase = "live" THEN Say(r.o, r.c.conn, a.out.srv[NET]) ELSE r.o]
Result(e) ==
    CASE e.e = "start" -> IF e.auto THEN Attempt(C, None, e.now) ELSE [c |-> C, o |-> None]
      [] e.e = "port" -> [c |-> [C EXCEPT !.ports = [p \in DOMAIN @ \cup {e.port} |-> IF p = e.port THEN e.mode ELSE @[p]]], o |-> None]
      [] e.e = "addserver" -> [c |-> IF C.phase = "gone" THEN C ELSE [C EXCEPT !.servers = Append(@, [port |-> e.port, pass |-> e.pass])], o |-> None]
      [] e.e = "connect" -> AskConnect(C, None, e.now)
      [] e.e = "next" -> AskNext(C, None, e.now)
      [] e.e = "disconnect" -> AskDisconnect(C, None)
      [] e.e = "del" -> Remove(C, None)
      [] e.e = "attach" -> Attached(Want(C, None, e.now), e)
      [] e.e = "detach" -> [c |-> IF Member(C, e.c) THEN [C EXCEPT !.W = Detach(@, e.c)] ELSE C, o |-> None]
      [] e.e = "cli" -> IF ~Member(C, e.c) THEN [c |-> C, o |-> None]
                        ELSE LET r == FromClient(C.W, Cfg(C), e.c, e.line, e.now) IN
                             [c |-> [C EXCEPT !.W = r.w], o |-> IF C.phase = "live" THEN Say(None, C.conn, r.out.srv[NET]) ELSE None]
      [] e.e = "srv" -> Heard(C, None, e.line, e.now)
      [] e.e = "finish" -> IF e.ok THEN Established(C, None, e.now) ELSE Failed(C, None, e.now)
      [] e.e = "close" -> Failed(C, None, e.now)
      [] e.e = "tick" -> Pass(C, None, e.now - e.n, e.now)

Of(ls, k) == LET s == SelectSeq(ls, LAMBDA x : x[1] = k) IN [i \in 1..Len(s) |-> NormReply(s[i][2])]
Conns(o) == {o.lines[i][1] : i \in 1..Len(o.lines)}
IsJoin(x) == Cmd(x) = "JOIN"
Ordered(ls) == SelectSeq(ls, LAMBDA x : ~IsJoin(x))
Count(ls, x) == Cardinality({i \in 1..Len(ls) : ls[i] = x})
SameLines(a, b) ==
    a = b \/ (/\ Ordered(a) = Ordered(b) /\ Len(a) = Len(b)
              /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])
              \* (channels are rejoined after everything else, in any order)
              /\ \A i \in 1..Len(a) : IsJoin(a[i]) = IsJoin(b[i]))
Ours(ls) == CASE chk = "P10" -> SelectSeq(ls, LAMBDA x : Cmd(x) \notin {"PING", "PONG", "QUIT"})
              [] OTHER -> ls
Ok(e, o) ==
    /\ o.opened = e.opened
    /\ o.closed = {e.closed[i] : i \in 1..Len(e.closed)}
    /\ \A k \in Conns(o) \cup Conns(e) : SameLines(Ours(Of(e.lines, k)), Ours(Of(o.lines, k)))
Step(e) ==
    IF e.e = "died" THEN Reject(sc, l, "died", e.op) /\ skip' = TRUE /\ UNCHANGED C
    ELSE LET r == Result(e) IN
         IF Ok(e, r.o) THEN C' = r.c /\ UNCHANGED skip
         ELSE Reject(sc, l, C.phase, r.o) /\ skip' = TRUE /\ UNCHANGED C
Next ==
    /\ l <= TraceLen
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.e = "reset" THEN C' = (IF Has(e, "missing") THEN C ELSE Start(e)) /\ chk' = Get(e, "chk", "") /\ skip' = FALSE /\ sc' = e.sc
       ELSE /\ UNCHANGED <<sc, chk>>
            /\ IF skip THEN UNCHANGED <<C, skip>> ELSE Step(e)
    /\ IF l = TraceLen THEN Done(l) ELSE TRUE
Spec == Init /\ [][Next]_<<l, C, chk, skip, sc>>
=============================================================================
