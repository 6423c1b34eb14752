CONSTANTS W = 3  MaxBits = 8
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Refines
