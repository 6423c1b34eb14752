CONSTANTS Infos = {1, 2}  Levels = {1, 2}  Most = 7
SPECIFICATION GSpec
INVARIANT Emit
