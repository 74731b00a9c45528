SPECIFICATION RSpec
CONSTANTS MaxPieces = 5
INVARIANTS CleanLaw WordLaw KindLaw OneKind RefLaw
CHECK_DEADLOCK FALSE
