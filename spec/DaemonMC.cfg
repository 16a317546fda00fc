CONSTANTS Depth = 5  Gen = FALSE  Which = "LINES"  NONE = "-"
SPECIFICATION Spec
VIEW Vw
INVARIANTS Gated Sealed Faithful Paired
