CONSTANTS
  WIDE = FALSE
  M = 100
  START = 0
  SPINS = 1
  PROGRAMS <- PA
  DESIGN = "right"
SPECIFICATION Spec
INVARIANT Good
INVARIANT Version
PROPERTY Ending
CHECK_DEADLOCK TRUE
