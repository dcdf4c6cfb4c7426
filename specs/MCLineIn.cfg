SPECIFICATION Spec
CONSTANTS Alphabet = {0, 10, 13, 65}  MaxLen = 6
INVARIANTS NoEnds Kept Count Whole
PROPERTIES Progress
CHECK_DEADLOCK FALSE
