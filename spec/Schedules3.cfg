CONSTANTS
    NVars = 3
    NEdges = 3
    MaxW = 1
