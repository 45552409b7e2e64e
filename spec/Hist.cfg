CONSTANTS
    Ids = {1, 2}
    Depth = 4
    Report = "norm"
SPECIFICATION HSpec
CONSTRAINT Emit
INVARIANTS Composed2
PROPERTIES Isolated OneMore
CHECK_DEADLOCK FALSE
