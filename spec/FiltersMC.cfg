CONSTANTS Which = "flt"  Depth = 4  Gen = FALSE  NONE = "-"
SPECIFICATION Spec
VIEW Vw
PROPERTY Steps
