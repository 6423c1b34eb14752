CONSTANTS W = 2  MaxBits = 6
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Refines
