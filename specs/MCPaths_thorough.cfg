SPECIFICATION Spec
CONSTANTS Alphabet = {46, 47, 92, 97, 98, 42}  MaxLen = 6
INVARIANTS NoDots Form Trail Again Inside Relative Fits Valid Slashes Info
CHECK_DEADLOCK FALSE
