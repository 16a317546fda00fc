CONSTANTS Depth = 5  Gen = FALSE  Which = "P01"  NONE = "-"
SPECIFICATION Spec
VIEW Vw
INVARIANTS Gated Registered Prompt Sealed
