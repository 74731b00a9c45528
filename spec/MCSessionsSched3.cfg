SPECIFICATION SSpec
CONSTANTS
  Design = "local"
  NThreads = 3
  NCalls = 1
  MaxCalls = 3
  Segments = 2
  LangOf <- MCLangOf
INVARIANTS Pure Obstruction
PROPERTIES Answered
CHECK_DEADLOCK FALSE
