CONSTANTS
  NH = 6
  NC = 3
  Sem <- SemDef
  CurSem <- CurDef
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
POSTCONDITION Post
