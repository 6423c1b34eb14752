CONSTANTS Hi = 1  Bulk = {1, 62, 63, 64} Depth = 4
SPECIFICATION GSpec
ACTION_CONSTRAINT EmitLeaf
