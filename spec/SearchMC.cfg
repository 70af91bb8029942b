SPECIFICATION SSpec
CONSTANTS
    NVars = 1
    NEdges = 3
    MaxW = 1
    Broken = "no"
INVARIANTS
    Sound
    Complete
    ClausesValid
    Progress
CHECK_DEADLOCK FALSE
