CONSTANTS Depth = 4  Gen = FALSE  NONE = "-"
SPECIFICATION Spec
VIEW Vw
INVARIANTS Complete Timed Consistent MarksOk BacklogOk AddsUp
