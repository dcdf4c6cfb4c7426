SPECIFICATION Spec
CONSTANTS Caches = {1, 2}  Hash = {0, 1, 2, 3, 4}  Keys = {1, 2}  Values = {1, 2}  Sizes = {1, 3}
INVARIANTS TypeOK
PROPERTIES OnlyOneSlotChanges
CHECK_DEADLOCK FALSE
