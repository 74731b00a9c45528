SPECIFICATION RSpec
CONSTANTS MaxPieces = 6
INVARIANTS CleanLaw WordLaw KindLaw OneKind RefLaw
CHECK_DEADLOCK FALSE
