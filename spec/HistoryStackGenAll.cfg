CONSTANTS Values = {1} Depth = 11
SPECIFICATION GSpec

ACTION_CONSTRAINT EmitLeaf
