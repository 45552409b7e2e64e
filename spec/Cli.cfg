CONSTANTS
    MaxArgs = 3
SPECIFICATION CSpec
CONSTRAINT Emit
INVARIANTS Parsed OrderFree OneLine
CHECK_DEADLOCK FALSE
