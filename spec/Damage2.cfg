SPECIFICATION Spec
CONSTANTS Max = 2 Bases = 2
