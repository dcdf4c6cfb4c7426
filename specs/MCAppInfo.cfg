SPECIFICATION Spec
CONSTANTS Abc = {47, 97}
MaxLen = 3
MaxSize = 11
INVARIANTS Inside Answered
CHECK_DEADLOCK FALSE
