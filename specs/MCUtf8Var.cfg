SPECIFICATION Spec
CONSTANTS
  Vars = {1}
  Cap = 9
INVARIANTS TypeOK WholeChars
CHECK_DEADLOCK FALSE
