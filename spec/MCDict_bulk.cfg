CONSTANTS
  Ords = {1, 2, 3}
  Tags = {0, 1}
  Vals = {1, 2}
  Law = "bulk"
SPECIFICATION Spec
INVARIANT LawsHold
CHECK_DEADLOCK FALSE
