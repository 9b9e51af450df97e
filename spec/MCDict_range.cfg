CONSTANTS
  Ords = {1, 2, 3, 4}
  Tags = {0, 1}
  Vals = {1, 2}
  Law = "range"
SPECIFICATION Spec
INVARIANT LawsHold
CHECK_DEADLOCK FALSE
