SPECIFICATION MCSpec
CONSTANT K = 3
INVARIANTS LowerValid PermValid OptimumFound ModelsExist
PROPERTY Terminates
