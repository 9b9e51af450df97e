CONSTANTS
  NH = 2
  MaxLen = 2
  MaxVal = 2
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT SameLists
INVARIANT RemoveEnabled
INVARIANT TopRight
INVARIANT PopRight
