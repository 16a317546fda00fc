DEFAULT = ("TLC explores the bounded model exhaustively; every behaviour it generates (sampled where there are too many) and seeded random histories "
           "run on the real code (ASAN/UBSAN, simulated sockets and clock), and every recorded step must be a step of the specification. "
           "Unbounded histories are sampled, not proved; the socket, clock and timer stand-ins are trusted.")
NA = {}
