CONSTANTS
    Thread = {1}
    Calls = 4
    Hidden = "none"
    Chosen = {1, 2, 3, 4, 5, 6, 7}
SPECIFICATION Spec
CONSTRAINT Emit
INVARIANTS Pure OneAnswer
CHECK_DEADLOCK FALSE
