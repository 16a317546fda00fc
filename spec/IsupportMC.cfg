CONSTANTS Depth = 2  Gen = FALSE  Part = 1
SPECIFICATION Spec
INVARIANTS Independent Readable Repeat
