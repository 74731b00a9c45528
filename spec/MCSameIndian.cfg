CONSTANTS
  Scheme = "indian"
  N = 3
INIT SInit
NEXT SNext
INVARIANT Same
CHECK_DEADLOCK FALSE
