SPECIFICATION TSpec
CONSTANT Chunk = 200
CONSTRAINT KMark
POSTCONDITION KPost
CHECK_DEADLOCK FALSE
