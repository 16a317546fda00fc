------------------------------ MODULE Queries ------------------------------
(* Commands and the numerics that answer them: those that may come any number *)
(* of times before the final one, the final ones, and the errors.             *)
EXTENDS Integers
QueryTable ==
  [c \in {"WHOIS", "WHO", "NAMES", "LIST", "TOPIC", "WHOWAS", "STATS", "VERSION", "LINKS", "TIME", "TRACE", "SUMMON", "USERS", "USERHOST", "ISON", "JOIN", "PART", "NICK", "PASS", "USER", "QUIT", "OPER", "MODE", "SERVICE", "SQUIT", "INVITE", "KICK", "PRIVMSG", "NICKSERV", "CHANSERV", "MOTD", "LUSERS", "CONNECT", "ADMIN", "INFO", "SERVLIST", "SQUERY", "KILL", "AWAY", "REHASH", "DIE", "RESTART", "PING", "WALLOPS", "PONG", "NOTICE", "AUTH", "CAPAB"} |->
    CASE c = "WHOIS" -> [more |-> {275, 301, 307, 308, 309, 311, 312, 313, 317, 319, 320, 326, 330, 338, 401}, final |-> {263, 318}, err |-> {402, 431}]
      [] c = "WHO" -> [more |-> {352, 354}, final |-> {263, 315}, err |-> {402}]
      [] c = "NAMES" -> [more |-> {353}, final |-> {263, 366}, err |-> {402, 416}]
      [] c = "LIST" -> [more |-> {321, 322}, final |-> {263, 323}, err |-> {402, 416}]
      [] c = "TOPIC" -> [more |-> {}, final |-> {263, 331, 332}, err |-> {442, 461, 477, 482}]
      [] c = "WHOWAS" -> [more |-> {312, 314, 330, 406}, final |-> {263, 369}, err |-> {431}]
      [] c = "STATS" -> [more |-> {211, 212, 213, 214, 215, 216, 217, 241, 242, 243, 244, 249, 250}, final |-> {219, 263}, err |-> {402}]
      [] c = "VERSION" -> [more |-> {}, final |-> {263, 351}, err |-> {402}]
      [] c = "LINKS" -> [more |-> {364}, final |-> {263, 365}, err |-> {402}]
      [] c = "TIME" -> [more |-> {}, final |-> {263, 391}, err |-> {402}]
      [] c = "TRACE" -> [more |-> {200, 201, 202, 203, 204, 205, 206, 208, 209, 261}, final |-> {262, 263}, err |-> {402}]
      [] c = "SUMMON" -> [more |-> {}, final |-> {263, 342}, err |-> {402, 411, 424, 444}]
      [] c = "USERS" -> [more |-> {392, 393, 395}, final |-> {263, 394}, err |-> {402, 424, 446}]
      [] c = "USERHOST" -> [more |-> {}, final |-> {263, 302}, err |-> {461}]
      [] c = "ISON" -> [more |-> {}, final |-> {263, 303}, err |-> {461}]
      [] c = "JOIN" -> [more |-> {}, final |-> {263}, err |-> {403, 405, 461, 470, 471, 473, 474, 475, 476, 479}]
      [] c = "PART" -> [more |-> {}, final |-> {263}, err |-> {403, 442, 461}]
      [] c = "NICK" -> [more |-> {}, final |-> {263}, err |-> {431, 432, 433, 436, 437, 438, 484}]
      [] c = "PASS" -> [more |-> {}, final |-> {}, err |-> {461, 462}]
      [] c = "USER" -> [more |-> {}, final |-> {263}, err |-> {461, 462}]
      [] c = "QUIT" -> [more |-> {}, final |-> {263}, err |-> {}]
      [] c = "OPER" -> [more |-> {}, final |-> {263, 381}, err |-> {461, 464, 491}]
      [] c = "MODE" -> [more |-> {346, 348, 367}, final |-> {221, 263, 324, 325, 347, 349, 368}, err |-> {403, 441, 461, 467, 472, 477, 479, 482, 501, 502}]
      [] c = "SERVICE" -> [more |-> {}, final |-> {2, 4, 263, 383}, err |-> {432, 461, 462}]
      [] c = "SQUIT" -> [more |-> {}, final |-> {263}, err |-> {402, 461, 481}]
      [] c = "INVITE" -> [more |-> {}, final |-> {263, 301, 341}, err |-> {401, 442, 443, 461, 482}]
      [] c = "KICK" -> [more |-> {}, final |-> {263}, err |-> {403, 441, 442, 461, 476, 482}]
      [] c = "PRIVMSG" -> [more |-> {}, final |-> {263, 301}, err |-> {401, 403, 404, 407, 411, 412, 413, 414, 505}]
      [] c = "NICKSERV" -> [more |-> {}, final |-> {263}, err |-> {412}]
      [] c = "CHANSERV" -> [more |-> {}, final |-> {263}, err |-> {412}]
      [] c = "MOTD" -> [more |-> {372, 375}, final |-> {263, 376}, err |-> {422}]
      [] c = "LUSERS" -> [more |-> {250, 251, 252, 253, 254}, final |-> {255, 263}, err |-> {402}]
      [] c = "CONNECT" -> [more |-> {}, final |-> {263}, err |-> {402, 461, 481}]
      [] c = "ADMIN" -> [more |-> {256, 257, 258}, final |-> {259, 263}, err |-> {402}]
      [] c = "INFO" -> [more |-> {371}, final |-> {263, 374}, err |-> {402}]
      [] c = "SERVLIST" -> [more |-> {234}, final |-> {235, 263}, err |-> {}]
      [] c = "SQUERY" -> [more |-> {}, final |-> {263, 301}, err |-> {401, 404, 407, 411, 412, 413, 414}]
      [] c = "KILL" -> [more |-> {}, final |-> {263}, err |-> {401, 461, 481, 483}]
      [] c = "AWAY" -> [more |-> {}, final |-> {263, 305, 306}, err |-> {}]
      [] c = "REHASH" -> [more |-> {}, final |-> {263, 382}, err |-> {481}]
      [] c = "DIE" -> [more |-> {}, final |-> {263}, err |-> {481}]
      [] c = "RESTART" -> [more |-> {}, final |-> {263}, err |-> {481}]
      [] c = "PING" -> [more |-> {}, final |-> {263}, err |-> {409}]
      [] c = "WALLOPS" -> [more |-> {}, final |-> {263}, err |-> {461}]
      [] c = "PONG" -> [more |-> {}, final |-> {263}, err |-> {402, 409}]
      [] c = "NOTICE" -> [more |-> {}, final |-> {263}, err |-> {}]
      [] c = "AUTH" -> [more |-> {}, final |-> {263}, err |-> {461, 462, 900, 909, 910, 911, 912}]
      [] c = "CAPAB" -> [more |-> {}, final |-> {290}, err |-> {461}]]
UnknownQuery == [more |-> {}, final |-> {263}, err |-> {421}]
QueryOf(c) == IF c \in DOMAIN QueryTable THEN QueryTable[c] ELSE UnknownQuery
=============================================================================
