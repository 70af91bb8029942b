SPECIFICATION MCSpec
CONSTANT K = 2
INVARIANTS LowerValid PermValid OptimumFound ModelsExist
PROPERTY Terminates
