CONSTANTS Depth = 4  Gen = FALSE  Script = 1
SPECIFICATION Spec
VIEW Vw
INVARIANT Faithful
