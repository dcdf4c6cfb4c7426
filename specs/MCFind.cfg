SPECIFICATION Spec
CONSTANTS Alpha = {1, 2}  MaxData = 4  MaxPat = 3
INVARIANTS HitIsMatch
PROPERTIES NothingMissed Exhausted
CHECK_DEADLOCK FALSE
