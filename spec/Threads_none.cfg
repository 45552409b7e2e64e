CONSTANTS
    Thread = {1, 2, 3}
    Calls = 2
    Hidden = "none"
    Chosen = {1, 2}
SPECIFICATION Spec
VIEW Hide
INVARIANTS Pure OneAnswer
CHECK_DEADLOCK FALSE
