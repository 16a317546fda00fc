CONSTANTS Depth = 6  Gen = FALSE
SPECIFICATION Spec
INVARIANTS RoundTrip Idempotent Unambiguous
VIEW Vw
