SPECIFICATION TSpec
CONSTANTS
    NVars = 2
    NEdges = 3
    MaxW = 1
INVARIANTS
    FeasibleIsSatisfiable
    ValuesSatisfy
    ValuesExtreme
    ComponentsIndependent
    FullIsConsistency
    FullIsStrongest
    ClosingIsSound
PROPERTIES
    ClausesStayValid
CHECK_DEADLOCK FALSE
