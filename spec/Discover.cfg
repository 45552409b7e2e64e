CONSTANTS
    MaxFiles = 2
    MaxWithEnv = 1
SPECIFICATION DSpec
CONSTRAINT Emit
INVARIANTS Ordering Discerning
CHECK_DEADLOCK FALSE
