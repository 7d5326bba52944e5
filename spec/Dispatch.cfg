CONSTANTS
  HAS = {"cx16", "avx"}
  ANSWERS <- Any
  PROGRAMS <- P1
  DESIGN = "right"
SPECIFICATION Spec
INVARIANT Able
INVARIANT Alone
INVARIANT Kept
PROPERTY Ending
CHECK_DEADLOCK TRUE
