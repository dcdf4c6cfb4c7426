SPECIFICATION Spec
CONSTANTS
  Vars = {1, 2}
  Cap = 4
  MaxLen = 3
INVARIANT TypeOK
PROPERTIES Independent PrefixKept
CONSTRAINT Short
CHECK_DEADLOCK FALSE
