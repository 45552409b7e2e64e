CONSTANTS
    Thread = {1, 2}
    Calls = 1
    Hidden = "none"
    Chosen = {1, 3}
SPECIFICATION Spec
INVARIANTS Pure OneAnswer
PROPERTIES Returns
CHECK_DEADLOCK FALSE
