CONSTANTS
    MaxA = 3
    MaxB = 2
SPECIFICATION ASpec
CONSTRAINT Emit
INVARIANTS Laws Assoc
CHECK_DEADLOCK FALSE
