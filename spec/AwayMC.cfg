CONSTANTS Depth = 5  Gen = FALSE
SPECIFICATION Spec
VIEW Vw
PROPERTIES OnlyFew OnlyOnce OnlyIdle Back OnlyBack Happens
