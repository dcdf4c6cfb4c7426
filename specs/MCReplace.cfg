SPECIFICATION RSpec
CONSTANTS Alpha = {1, 2}  MaxData = 3  MaxPat = 2
CONSTRAINT Small
INVARIANTS OutFits
CHECK_DEADLOCK FALSE
