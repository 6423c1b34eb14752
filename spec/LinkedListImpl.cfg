CONSTANTS MaxNodes = 4  Values = {1, 2}
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Refines
