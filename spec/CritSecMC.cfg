SPECIFICATION Spec
CONSTANTS Ctx = {c1, c2, c3}  NOps = 2  DISCIPLINE = "inside"
INVARIANTS Lin Excl Restores
PROPERTY Finishes
