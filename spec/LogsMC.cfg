CONSTANTS Depth = 7  Gen = FALSE
SPECIFICATION Spec
VIEW Vw
INVARIANTS Knows Talks
PROPERTIES Right Once
