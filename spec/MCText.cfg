SPECIFICATION MSpec
INVARIANTS Holds LayoutAgrees ControlAgrees Stable
CHECK_DEADLOCK FALSE
