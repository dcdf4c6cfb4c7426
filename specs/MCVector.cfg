SPECIFICATION Spec
CONSTANTS Vecs = {1, 2}  Values = {1, 2}  Dims = {0, 1, 2}
INVARIANTS Shape
PROPERTIES Independent
CHECK_DEADLOCK FALSE
