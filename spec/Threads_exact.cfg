CONSTANTS
    Thread = {1, 2, 3}
    Calls = 2
    Hidden = "exact"
    Chosen = {1, 2}
SPECIFICATION Spec
VIEW Hide
INVARIANTS Pure OneAnswer
CHECK_DEADLOCK FALSE
