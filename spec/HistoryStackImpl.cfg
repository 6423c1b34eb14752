CONSTANT Values = {1, 2, 3}
SPECIFICATION Spec
PROPERTY Refines
