SPECIFICATION Spec
CONSTANTS Hashes = {1, 2}  Keys = {1, 2, 3}  Values = {1}  MaxPos = 2
INVARIANTS UniqueKeys AllPlaced
PROPERTIES OrderKept
CHECK_DEADLOCK FALSE
