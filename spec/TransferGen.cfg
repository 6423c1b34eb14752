SPECIFICATION Spec
CONSTANT Depth = 3
