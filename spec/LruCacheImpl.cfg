CONSTANTS Cap = 3  Keys = {0, 1, 2, 3}  Values = {1, 2}
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Refines
