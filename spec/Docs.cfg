CONSTANTS
    Wide = FALSE
SPECIFICATION DSpec
CONSTRAINT Emit
INVARIANTS Shapes
CHECK_DEADLOCK FALSE
