SPECIFICATION Spec
INVARIANTS Canonical NegInvolution Grouping
CHECK_DEADLOCK FALSE
