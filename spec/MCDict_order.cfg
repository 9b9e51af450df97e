CONSTANTS
  Ords = {1, 2}
  Tags = {0, 1}
  Vals = {1, 2}
  Law = "order"
SPECIFICATION Spec
INVARIANT LawsHold
CHECK_DEADLOCK FALSE
