SPECIFICATION TSpec
CONSTANTS Vecs = {1, 2, 3}  Values = {}  Dims = {}
CONSTRAINT KMark
INVARIANTS Shape
POSTCONDITION KPost
CHECK_DEADLOCK FALSE
