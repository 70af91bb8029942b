CONSTANTS
    NVars = 2
    NEdges = 4
    MaxW = 1
