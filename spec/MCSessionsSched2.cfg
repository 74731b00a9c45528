SPECIFICATION SSpec
CONSTANTS
  Design = "local"
  NThreads = 2
  NCalls = 1
  MaxCalls = 2
  Segments = 4
  LangOf <- MCLangOf
INVARIANTS Pure Obstruction
PROPERTIES Answered
CHECK_DEADLOCK FALSE
