SPECIFICATION Spec
CONSTANT Depth = 5
