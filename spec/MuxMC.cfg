CONSTANTS Which = "P03"  Depth = 4  Gen = FALSE  NONE = "-"
SPECIFICATION Spec
VIEW Vw
INVARIANT IdOk
INVARIANT QueueOk
INVARIANT Conserve
PROPERTY Steps
