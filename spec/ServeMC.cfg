SPECIFICATION Spec
CONSTANTS Depth = 6
 Gen = FALSE
VIEW Vw
INVARIANTS Apart Mute
PROPERTIES Contained Back Kept
CHECK_DEADLOCK FALSE
