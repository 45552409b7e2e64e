CONSTANTS
    Depth = 3
    Rich = 1
SPECIFICATION PSpec
CONSTRAINT Emit
INVARIANTS Mirror Named
PROPERTIES Settled
CHECK_DEADLOCK FALSE
