SPECIFICATION GSpec
CONSTANTS
    N = 3
    MaxW = 1
    MaxE = 4
    MaxL = 1
INVARIANTS
    Canonic
    Exact
    Cycle
    Once
PROPERTIES
    Restored
CHECK_DEADLOCK FALSE
