CONSTANTS
  NH = 2
  MaxLen = 3
  MaxVal = 3
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT SameLists
INVARIANT RemoveEnabled
INVARIANT TopRight
INVARIANT PopRight
