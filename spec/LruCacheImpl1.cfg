CONSTANTS Cap = 1  Keys = {0, 1, 2}  Values = {1, 2}
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Refines
