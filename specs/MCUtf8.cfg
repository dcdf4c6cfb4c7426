SPECIFICATION Spec
CONSTANT Chunk = 2  MaxLen = 3
INVARIANTS Idempotent RoundTrip Whole FromPrefix LenBound Same
CHECK_DEADLOCK FALSE
