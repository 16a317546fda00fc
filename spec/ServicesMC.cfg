CONSTANTS Depth = 4  Gen = FALSE  NONE = "-" LearnOn = TRUE
SPECIFICATION Spec
VIEW Vw
PROPERTY Steps
