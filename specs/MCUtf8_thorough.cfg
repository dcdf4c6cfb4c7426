SPECIFICATION Spec
CONSTANT Chunk = 2  MaxLen = 5
INVARIANTS Idempotent RoundTrip Whole FromPrefix LenBound Same
CHECK_DEADLOCK FALSE
