SPECIFICATION DPSpec
CONSTANTS
  Files = {"aa", "bb", "cc"}
  NoRules = {"cc"}
  MaxRuns = 2
  Design = "fresh"
INVARIANTS Reproduced NoMixture
CHECK_DEADLOCK FALSE
