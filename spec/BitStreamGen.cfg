CONSTANTS Sizes = {0, 3, 125, 128} Depth = 4
SPECIFICATION GSpec
ACTION_CONSTRAINT EmitLeaf
