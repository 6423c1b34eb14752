CONSTANTS Infos = {1, 2, 3}  Levels = {1, 2}  Most = 5
SPECIFICATION GSpec
INVARIANT Emit
