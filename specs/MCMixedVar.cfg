SPECIFICATION Spec
CONSTANTS
  Vars = {1, 2}
  Cap = 3
  MaxLen = 2
INVARIANT TypeOK
PROPERTIES Independent PrefixKept
CONSTRAINT Short
CHECK_DEADLOCK FALSE
