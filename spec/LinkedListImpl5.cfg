CONSTANTS MaxNodes = 5  Values = {1, 2}
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Refines
