-------------------------------- MODULE Conn --------------------------------
(* The life cycle of the connection of one network.                           *)
(*  phase  "off"     no connection and none wanted                            *)
(*         "wait"    lost, to be connected again at time at                   *)
(*         "pending" being established (the server did not react yet)         *)
(*         "live"    established; W knows whether the login is complete       *)
(*         "gone"    the network was removed                                  *)
(*  servers ports in order; cur the one in use (0: none so far)               *)
(*  ports  what a connection to a port will do: "ok", "pending", "no"         *)
(*  conn   number of the current connection, total how many there were so far *)
(*  last   when the server last said something, born when it was reached      *)
(*  nick   the configured nick (changes to the one last in use)               *)
(*  chans  the configured channels <<[name, key, auto]>>                      *)
EXTENDS Mux
CONSTANTS NET
MinSilent == 60
MaxSilent == 120
ProbeEvery == 5

NothingOut == [lines |-> <<>>, opened |-> <<>>, closed |-> {}, bag |-> <<>>]
Say(o, k, ls) == [o EXCEPT !.lines = @ \o SeqMap(LAMBDA x : <<k, WithOrigin(x, "")>>, ls)]
Open(o, port, pending) == [o EXCEPT !.opened = Append(@, <<port, pending>>)]
Close(o, k) == [o EXCEPT !.closed = @ \cup {k}]

NextServer(C) == IF Len(C.servers) = 0 THEN 0 ELSE IF C.cur = 0 \/ C.cur = Len(C.servers) THEN 1 ELSE C.cur + 1
PortMode(C, i) == LET p == C.servers[i].port IN IF p \in DOMAIN C.ports THEN C.ports[p] ELSE "ok"

Password(C) == IF C.servers[C.cur].pass # "" THEN C.servers[C.cur].pass ELSE C.pass
Login(C) == (IF Password(C) = "" THEN <<>> ELSE <<<<"", "PASS", Password(C)>>>>)
            \o <<<<"", "NICK", C.nick>>, <<"", "USER", C.user, "a", "a", C.real>>>>
Live(r, now) ==
    LET C == r.c IN
    [c |-> [C EXCEPT !.phase = "live", !.born = now, !.last = now, !.W = Connected(@, NET, C.nick, C.user, C.host).w],
     o |-> Say(r.o, C.conn, Login(C))]
\* one attempt with the server whose turn it is; ok tells whether there is something to wait for
Try(C0, o, now) ==
    LET C == IF C0.cur = 0 THEN [C0 EXCEPT !.cur = NextServer(C0)] ELSE C0
        port == C.servers[C.cur].port
        D == [C EXCEPT !.conn = C.total + 1, !.total = @ + 1]
    IN IF C.cur = 0 THEN [c |-> C, o |-> o, ok |-> FALSE]
       ELSE CASE PortMode(C, C.cur) = "no" -> [c |-> C, o |-> o, ok |-> FALSE]
              [] PortMode(C, C.cur) = "pending" -> [c |-> [D EXCEPT !.phase = "pending"], o |-> Open(o, port, TRUE), ok |-> TRUE]
              [] OTHER -> LET r == Live([c |-> D, o |-> Open(o, port, FALSE)], now) IN [c |-> r.c, o |-> r.o, ok |-> TRUE]

(* what is remembered of a session that ends *)
ChanKey(ch) == IF "k" \in DOMAIN ch.opts THEN ch.opts["k"] ELSE ""
RECURSIVE Learn(_, _, _)
Learn(st, cs, seen) ==
    IF seen = <<>> THEN cs
    ELSE LET ch == Head(seen)
             i == FirstIdx(cs, LAMBDA x : SameN(st, x.name, ch.name))
             new == [name |-> IF i = 0 THEN ch.name ELSE cs[i].name, key |-> ChanKey(ch), auto |-> TRUE]
         IN Learn(st, IF i = 0 THEN Append(cs, new) ELSE [cs EXCEPT ![i] = new], Tail(seen))
Remembered(C) ==
    LET st == C.W.nets[NET].st IN
    IF C.W.nets[NET].phase # "up" THEN C
    ELSE [C EXCEPT !.nick = st.me.nick, !.chans = Learn(st, [i \in 1..Len(C.chans) |-> [C.chans[i] EXCEPT !.auto = FALSE]], st.chans)]
\* the connection (if any) is given up; why: "told" when the server can still be told
Drop(C, o, told) ==
    CASE C.phase = "live" ->
           [c |-> [Remembered(C) EXCEPT !.phase = "off", !.conn = 0, !.W = Lost(C.W, NET).w],
            o |-> Close(IF told THEN Say(o, C.conn, <<<<"", "QUIT">>>>) ELSE o, C.conn)]
      [] C.phase = "pending" -> [c |-> [C EXCEPT !.phase = "off", !.conn = 0], o |-> Close(o, C.conn)]
      [] OTHER -> [c |-> [C EXCEPT !.phase = "off"], o |-> o]
Wait(C, now) == [C EXCEPT !.phase = "wait", !.cur = NextServer(C), !.at = now + C.interval]
Lose(C, o, told, now) == LET r == Drop(C, o, told) IN [c |-> Wait(r.c, now), o |-> r.o]

(* ---- what the user asks for ---- *)
Attempt(C, o, now) == LET r == Try(C, o, now) IN [c |-> r.c, o |-> r.o]
\* somebody wants to use the network
Want(C, o, now) == IF C.phase = "off" THEN Attempt(C, o, now) ELSE [c |-> C, o |-> o]
Next1(C, o, now) ==
    LET r == Drop(C, o, TRUE) IN Attempt([r.c EXCEPT !.cur = NextServer(r.c)], r.o, now)
AskConnect(C, o, now) ==
    CASE C.phase = "off" -> Attempt(C, o, now)
      [] C.phase = "wait" -> Next1(C, o, now)
      [] OTHER -> [c |-> C, o |-> o]
AskNext(C, o, now) == IF C.phase = "gone" THEN [c |-> C, o |-> o] ELSE Next1(C, o, now)
AskDisconnect(C, o) == IF C.phase = "gone" THEN [c |-> C, o |-> o] ELSE Drop(C, o, TRUE)
Remove(C, o) == LET r == Drop(C, o, TRUE) IN [c |-> [r.c EXCEPT !.phase = "gone"], o |-> r.o]

(* ---- what the server does ---- *)
Rejoin(C) == LET a == SelectSeq(C.chans, LAMBDA x : x.auto) IN
             [i \in 1..Len(a) |-> <<"", "JOIN", a[i].name>> \o (IF a[i].key = "" THEN <<>> ELSE <<a[i].key>>)]
Cfg(C) == [n \in {NET} |-> [report |-> FALSE, offset |-> 0, autocmd |-> C.autocmd, join |-> Rejoin(C)]]
Heard(C, o, ln, now) ==
    IF C.phase # "live" THEN [c |-> C, o |-> o]
    ELSE LET r == FromServer(C.W, Cfg(C), NET, ln, now) IN
         [c |-> [C EXCEPT !.W = r.w, !.last = now], o |-> Say(o, C.conn, r.out.srv[NET])]
Established(C, o, now) == IF C.phase = "pending" THEN Live([c |-> C, o |-> o], now) ELSE [c |-> C, o |-> o]
Failed(C, o, now) == IF C.phase \in {"pending", "live"} THEN Lose(C, o, FALSE, now) ELSE [c |-> C, o |-> o]

(* ---- time passes: what is due at second now ---- *)
Due(C, o, now) ==
    CASE C.phase = "wait" /\ now >= C.at ->
           LET r == Try([C EXCEPT !.phase = "off"], o, now) IN
           IF r.ok THEN [c |-> r.c, o |-> r.o] ELSE [c |-> Wait(r.c, now), o |-> r.o]
      [] C.phase = "live" /\ now > C.born /\ (now - C.born) % ProbeEvery = 0 ->
           IF now - C.last > MaxSilent THEN Lose(C, o, TRUE, now)
           ELSE IF now - C.last > MinSilent THEN [c |-> C, o |-> Say(o, C.conn, <<<<"", "PING", "ctrlproxy">>>>)]
           ELSE [c |-> C, o |-> o]
      [] OTHER -> [c |-> C, o |-> o]
RECURSIVE Pass(_, _, _, _)
Pass(C, o, from, to) == IF from >= to THEN [c |-> C, o |-> o] ELSE LET r == Due(C, o, from + 1) IN Pass(r.c, r.o, from + 1, to)

Fresh(servers, interval, nick, user, real, host, pass, autocmd, chans) ==
    [phase |-> "off", at |-> 0, cur |-> 0, servers |-> servers, ports |-> [p \in {} |-> ""], conn |-> 0, total |-> 0, last |-> 0, born |-> 0,
     interval |-> interval, nick |-> nick, user |-> user, real |-> real, host |-> host, pass |-> pass, autocmd |-> autocmd, chans |-> chans,
     W |-> [nets |-> [n \in {NET} |-> [st |-> InitState("", "", ""), phase |-> "off", q |-> <<>>, order |-> <<>>]], cl |-> [c \in {} |-> 0]]]
=============================================================================
