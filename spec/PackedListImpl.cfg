CONSTANTS W = 3  Values = {0, 1}  MaxLen = 8
SPECIFICATION Spec
PROPERTY Refines
