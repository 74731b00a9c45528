SPECIFICATION SSpec
CONSTANTS
  Design = "local"
  NThreads = 2
  NCalls = 1
  MaxCalls = 4
  Segments = 2
  LangOf <- MCLangOf
INVARIANTS Pure Obstruction
PROPERTIES Answered
CHECK_DEADLOCK FALSE
