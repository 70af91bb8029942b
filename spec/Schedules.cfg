CONSTANTS
    NVars = 2
    NEdges = 3
    MaxW = 1
