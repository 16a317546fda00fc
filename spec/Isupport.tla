----------------------------- MODULE Isupport ------------------------------
(* The capabilities in effect after a sequence of advertisements.             *)
(* C = [shown, cm, pmodes, psyms, chantypes, cmodes, known]: shown maps a      *)
(* capability to the way it is told to others ("" = as a bare word), the rest  *)
(* (as in State!DefaultInfo) is what the proxy itself goes by.                 *)
EXTENDS State

Lengths == {"NICKLEN", "USERLEN", "HOSTLEN", "CHANNELLEN", "AWAYLEN", "KICKLEN", "TOPICLEN", "WATCH", "MAXPARA",
            "MAXCHANNELS", "MAXTARGETS", "MAXBANS", "MODES", "KEYLEN"}
Alias == [k \in {"MAXNICKLEN", "MAXCHANNELLEN"} |-> IF k = "MAXNICKLEN" THEN "NICKLEN" ELSE "CHANNELLEN"]
Flags == {"OVERRIDE", "VBANLIST", "REMOVE", "WALLCHOPS", "MAP", "SSL", "WALLVOICES", "RFC2812", "PENALTY", "FNC", "SAFELIST",
          "USERIP", "CPRIVMSG", "CNOTICE", "KNOCK", "CAPAB", "HCN", "VCHANNELS", "WHOX", "CALLERID", "ACCEPT", "ESILENCE",
          "UHNAMES", "NAMESX", "SECURELIST"}
Texts == {"NETWORK", "IRCD", "CHARSET", "CHANLIMIT", "MAXLIST", "IDCHAN", "STATUSMSG"}
Letters == [k \in {"EXCEPTS", "INVEX", "DEAF"} |-> CASE k = "EXCEPTS" -> "e" [] k = "INVEX" -> "I" [] OTHER -> "D"]

With(C, k, v) == [C EXCEPT !.shown = [x \in DOMAIN @ \cup {k} |-> IF x = k THEN v ELSE @[x]]]
Without(C, k) == [C EXCEPT !.shown = [x \in DOMAIN @ \ {k} |-> @[x]]]
NoCaps == [shown |-> [k \in {"CASEMAPPING", "PREFIX", "CHANTYPES"} |->
                        CASE k = "CASEMAPPING" -> "rfc1459" [] k = "PREFIX" -> "=(ov)@+" [] OTHER -> "=#&"],
           info |-> DefaultInfo]
\* the letters of Of that occur in s
RECURSIVE Pick(_, _)
Pick(of, s) == IF of = "" THEN "" ELSE (IF Contains(s, Ch(of, 1)) THEN Ch(of, 1) ELSE "") \o Pick(SubSeq(of, 2, Len(of)), s)

Advertise(C0, t) ==
    LET i == Index(t, "=")
        k0 == Up(IF i = 0 THEN t ELSE SubSeq(t, 1, i - 1))
        key == IF k0 \in DOMAIN Alias THEN Alias[k0] ELSE k0
        val == IF i = 0 THEN "" ELSE SubSeq(t, i + 1, Len(t))
        C == [C0 EXCEPT !.info = Token(@, t)]
    IN CASE key \in Flags -> With(C, key, "")
         [] key \in Lengths -> IF i = 0 THEN C ELSE IF Num(val) = 0 THEN Without(C, key) ELSE With(C, key, ToString(Num(val)))
         [] key \in Texts -> IF i = 0 THEN Without(C, key) ELSE With(C, key, "=" \o val)
         [] key \in DOMAIN Letters ->
                IF i = 0 THEN With(C, key, Letters[key]) ELSE IF Len(val) > 1 THEN C
                ELSE IF val = "" THEN Without(C, key) ELSE With(C, key, val)
         [] key = "SILENCE" -> IF i = 0 \/ Num(val) = 0 THEN With(C, key, "") ELSE With(C, key, ToString(Num(val)))
         [] key = "ELIST" -> IF i = 0 THEN C ELSE LET p == Pick("MNUCT", val) IN IF p = "" THEN Without(C, key) ELSE With(C, key, p)
         [] key = "EXTBAN" -> IF i = 0 THEN With(C, key, "~,cqr") ELSE IF val = "" THEN Without(C, key)
                              ELSE With(C, key, IF Contains(val, ",") THEN val ELSE val \o ",")
         [] key = "CASEMAPPING" -> IF i = 0 THEN C ELSE With(C, key, IF C.info.cm = "" THEN "rfc1459" ELSE C.info.cm)
         [] key = "CHANTYPES" -> IF i = 0 THEN C ELSE With(C, key, "=" \o val)
         [] key = "PREFIX" -> IF i = 0 \/ (val # "" /\ (Ch(val, 1) # "(" \/ ~Contains(val, ")"))) THEN C ELSE With(C, key, "=" \o val)
         [] key = "CHANMODES" -> IF i = 0 \/ Len(Split(val, ",")) < 4 THEN C ELSE With(C, key, "=" \o val)
         [] OTHER -> C
RECURSIVE AdvertiseAll(_, _)
AdvertiseAll(C, ts) == IF ts = <<>> THEN C ELSE AdvertiseAll(Advertise(C, Head(ts)), Tail(ts))
\* a capability as a word; one that is a value even if that is empty is kept as "=value"
Word(k, v) == IF v = "" THEN k ELSE IF Ch(v, 1) = "=" THEN k \o v ELSE k \o "=" \o v
Words(C) == {Word(k, C.shown[k]) : k \in DOMAIN C.shown}

\* what the clients of a network are told: its capabilities, but for those that concern the proxy itself
ToClients(C) ==
    LET D == Without(Without(Without(C, "NAMESX"), "UHNAMES"), "CHARSET")
    IN With(With(D, "IRCD", "=ctrlproxy"), "FNC", "")
\* a 005 line: the last argument is a text
Advertised(C, ln) == AdvertiseAll(C, SubSeq(ln, 4, Len(ln) - 1))

(* ---- what follows from the capabilities ---- *)
LETTERS == UPPER \o LOWER
ClassNumber(C, m) == LET x == ModeClass([info |-> C.info], m) IN
    CASE x = "list" -> "1" [] x = "setting" -> "2" [] x = "opt" -> "3" [] x = "bool" -> "4" [] OTHER -> "0"
RECURSIVE ClassesFrom(_, _)
ClassesFrom(C, i) == IF i > Len(LETTERS) THEN "" ELSE ClassNumber(C, Ch(LETTERS, i)) \o ClassesFrom(C, i + 1)
Classes(C) == ClassesFrom(C, 1)
MarkOf(C, m) == LET i == Index(C.info.pmodes, m) IN IF i = 0 \/ i > Len(C.info.psyms) THEN "" ELSE Ch(C.info.psyms, i)
Marks(C) == {m \o MarkOf(C, m) : m \in {x \in CharSet(LETTERS) : MarkOf(C, x) # ""}}
\* the status of every mark for which there is one
Statuses(C) == {c \o PrefixMode([info |-> C.info], c) : c \in {x \in CharSet(C.info.psyms) \ CharSet(LETTERS) : PrefixMode([info |-> C.info], x) # ""}}
=============================================================================
