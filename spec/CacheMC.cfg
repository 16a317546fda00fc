CONSTANTS Depth = 7  Gen = FALSE  NONE = "-"
SPECIFICATION Spec
VIEW Vw
INVARIANTS Truthful NotHalf
