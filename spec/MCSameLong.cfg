CONSTANTS
  Scheme = "long"
  N = 6
INIT SInit
NEXT SNext
INVARIANT Same
CHECK_DEADLOCK FALSE
