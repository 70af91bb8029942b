SPECIFICATION TraceSpec
INVARIANT Accepted
ALIAS Short
CHECK_DEADLOCK TRUE
