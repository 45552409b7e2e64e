CONSTANTS
    Kinds = {"neo"}
    Extra = 0
SPECIFICATION Spec
VIEW View
CONSTRAINT Emit
INVARIANTS Online Reported Laws PresetLaws
CHECK_DEADLOCK FALSE
