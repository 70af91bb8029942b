SPECIFICATION TSpec
CONSTANTS
    NVars = 2
    NEdges = 2
    MaxW = 2
INVARIANTS
    FeasibleIsSatisfiable
    ValuesSatisfy
    ValuesExtreme
    ComponentsIndependent
    FullIsConsistency
    FullIsStrongest
    ClosingIsSound
PROPERTIES
    ClausesStayValid
CHECK_DEADLOCK FALSE
