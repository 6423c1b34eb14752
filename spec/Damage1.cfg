SPECIFICATION Spec
CONSTANTS Max = 1 Bases = 6
