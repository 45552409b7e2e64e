CONSTANTS
    Depth = 3
SPECIFICATION HSpec
CONSTRAINT Emit
INVARIANTS Shape TableMeaning
PROPERTIES OneTable AddSorts
CHECK_DEADLOCK FALSE
