SPECIFICATION Spec
CONSTANTS
 Harts = {1}
 Depth = 2
 NOps = 2
 NInts = 3
 LOCK = FALSE
 DESIGN = "right"
INVARIANTS Right Whole
PROPERTY Ends
