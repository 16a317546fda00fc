CONSTANTS Alphabet = 1  Size = 1  Gen = FALSE
SPECIFICATION Spec
INVARIANTS Equivalence Agree Ordered Bounded
