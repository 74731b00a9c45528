SPECIFICATION SSpec
CONSTANTS
  Design = "local"
  NThreads = 1
  NCalls = 7
  MaxCalls = 4
  Segments = 1
  LangOf <- MCLangOf
INVARIANTS Pure Obstruction
PROPERTIES Answered
CHECK_DEADLOCK FALSE
