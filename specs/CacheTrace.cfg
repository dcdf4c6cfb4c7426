SPECIFICATION TSpec
CONSTANTS Caches = {1, 2}  Hash = {}  Keys = {}  Values = {}  Sizes = {}
CONSTRAINT KMark
INVARIANTS TypeOK
POSTCONDITION KPost
CHECK_DEADLOCK FALSE
