----------------------------- MODULE IsupportMC -----------------------------
(* Every short sequence of advertisements out of those that matter.           *)
EXTENDS Isupport, Json
CONSTANTS Depth, Gen, Part
VARIABLES C, ts
All == << \* values, their absence, repetition, other cases, malformed ones
  {"CASEMAPPING=ascii", "CASEMAPPING=strict-rfc1459", "casemapping=RFC1459", "CASEMAPPING=x", "CASEMAPPING",
   "PREFIX=(qov)~@+", "PREFIX=", "PREFIX", "PREFIX=ov", "PREFIX=(ov", "PREFIX=()", "PREFIX=(ohv)@%",
   "CHANMODES=b,k,l,mnt", "CHANMODES=b,k,l", "CHANMODES=beI,k,lj,imn,x", "CHANMODES=,,,", "CHANMODES",
   "CHANTYPES=#", "CHANTYPES=", "CHANTYPES", "NETWORK=Foo", "NETWORK", "UNKNOWN=1", "=x", "="},
  {"NICKLEN=9", "MAXNICKLEN=30", "NICKLEN", "NICKLEN=abc", "NICKLEN=0", "CHANNELLEN=50", "MAXCHANNELLEN=200", "MODES=4", "MODES",
   "TOPICLEN=300", "AWAYLEN=200", "KICKLEN=255", "USERLEN=10", "HOSTLEN=63", "KEYLEN=23", "WATCH=128", "WATCH",
   "MAXCHANNELS=20", "MAXTARGETS=4", "MAXBANS=60", "MAXPARA=32", "nicklen=12", "NICKLEN=12x"},
  {"SILENCE", "SILENCE=15", "SILENCE=", "EXCEPTS", "EXCEPTS=x", "EXCEPTS=", "EXCEPTS=xy", "INVEX", "INVEX=J", "DEAF", "DEAF=d",
   "ELIST=MU", "ELIST=TCN", "ELIST", "ELIST=x", "ELIST=", "EXTBAN", "EXTBAN=$,arx", "EXTBAN=,q", "EXTBAN=~", "EXTBAN=",
   "MAXLIST=b:10", "MAXLIST", "IDCHAN=!:5", "IDCHAN", "STATUSMSG=@+", "STATUSMSG", "CHANLIMIT=#:20", "CHANLIMIT",
   "CHARSET=utf-8", "IRCD=x", "IRCD"} >>
Tokens1 == IF Part = 4 THEN Flags \cup {"-KNOCK", "knock", "SSL=1.2.3.4", "MAP=", "FNC=x"} ELSE All[Part]
Init == C = NoCaps /\ ts = <<>>
Next == /\ Len(ts) < Depth
        /\ \E t \in Tokens1 : ts' = Append(ts, t) /\ C' = Advertise(C, t)
        /\ IF Gen /\ Len(ts') = Depth THEN PrintT(ToJson(ts')) ELSE TRUE
Spec == Init /\ [][Next]_<<C, ts>>
\* a value depends on the last advertisement that has one only
KeyOf(t) == LET i == Index(t, "=") k == Up(IF i = 0 THEN t ELSE SubSeq(t, 1, i - 1)) IN IF k \in DOMAIN Alias THEN Alias[k] ELSE k
Independent == \A k \in DOMAIN C.shown :
    LET own == SelectSeq(ts, LAMBDA t : KeyOf(t) = k) D == AdvertiseAll(NoCaps, own) IN k \in DOMAIN D.shown /\ D.shown[k] = C.shown[k]
\* what is told is understood: reading the words back gives the same
RECURSIVE InAnyOrder(_)
InAnyOrder(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o InAnyOrder(S \ {x})
Readable == AdvertiseAll(NoCaps, InAnyOrder(Words(C))).shown = C.shown
Repeat == \A i \in 1..Len(ts) : i = Len(ts) => Advertise(C, ts[i]) = C
=============================================================================
