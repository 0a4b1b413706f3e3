SPECIFICATION Spec
CONSTANT Bound = 8
INVARIANTS Within Correct Middle Formulas
PROPERTY Flips
CHECK_DEADLOCK FALSE
