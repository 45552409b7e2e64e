SPECIFICATION CSpec
CONSTANTS
    MaxLen = 5
    MaxRows = 2
    MaxFields = 2
INVARIANTS Incremental Reads Rereads NoEmptyRecord Emit
CHECK_DEADLOCK FALSE
