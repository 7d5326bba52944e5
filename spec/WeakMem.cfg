SPECIFICATION Spec
INVARIANTS Report ViewsOK
PROPERTY Monotone
CHECK_DEADLOCK FALSE
