SPECIFICATION CSpec
INVARIANTS Follows Verbatim KeptLast Converted
PROPERTIES Connectors Spaces
CHECK_DEADLOCK FALSE
