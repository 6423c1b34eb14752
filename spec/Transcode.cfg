SPECIFICATION Spec
INVARIANTS Near Bounded
PROPERTY Settled
CHECK_DEADLOCK FALSE
