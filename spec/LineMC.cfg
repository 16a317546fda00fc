CONSTANTS Size = 6  Gen = FALSE  Alphabet = 1
SPECIFICATION Spec
INVARIANTS RoundTrip Agree Same1
