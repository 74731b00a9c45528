SPECIFICATION MBSpec
INVARIANTS Steps Standard NoLeak ConnNeutral ConnKept Canonical
PROPERTIES ForcedStart ScaleLaw Final
CHECK_DEADLOCK FALSE
