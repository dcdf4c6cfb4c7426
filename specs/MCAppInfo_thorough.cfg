SPECIFICATION Spec
CONSTANTS Abc = {47, 97}
MaxLen = 5
MaxSize = 15
INVARIANTS Inside Answered
CHECK_DEADLOCK FALSE
