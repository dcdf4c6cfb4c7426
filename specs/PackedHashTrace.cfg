SPECIFICATION TSpec
CONSTANTS Hashes = {1, 2}  Keys = {}  Values = {}  MaxPos = 0
CONSTRAINT KMark
INVARIANTS UniqueKeys AllPlaced
POSTCONDITION KPost
CHECK_DEADLOCK FALSE
