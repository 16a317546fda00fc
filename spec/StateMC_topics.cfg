CONSTANTS Which = "topics"  Depth = 4  Gen = TRUE
SPECIFICATION Spec
VIEW Vw
INVARIANT OnOk
INVARIANT MemOk
INVARIANT NoDup
INVARIANT ModesOk
