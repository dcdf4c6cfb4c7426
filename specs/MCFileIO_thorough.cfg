SPECIFICATION Spec
CONSTANTS Modes = {384, 256, 128}  Masks = {0, 256}  Names = {1, 2}  Hs = {1, 2}  Bytes1 = {7, 8}  MaxLen = 2  MaxFiles = 2  Steps = 6
INVARIANTS Locking Distinct DataOfNames
PROPERTIES Permitted Written ReadOnly FailedOpen
CHECK_DEADLOCK FALSE
VIEW View
