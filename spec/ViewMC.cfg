CONSTANTS Depth = 6  Gen = FALSE  NONE = "-"
SPECIFICATION Spec
VIEW Vw
INVARIANT Fine
PROPERTY Arrive
