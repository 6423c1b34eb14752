CONSTANTS Caps = {1, 2, 4, 8, 16, 32}  Values = {1}
SPECIFICATION GSpec
VIEW Vw
ACTION_CONSTRAINT Emit
