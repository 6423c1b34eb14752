CONSTANTS Hi = 15  Bulk = {1, 2, 3} Depth = 4
SPECIFICATION GSpec
ACTION_CONSTRAINT EmitLeaf
