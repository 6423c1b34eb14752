CONSTANTS Values = {1} Depth = 99
SPECIFICATION GSpec
VIEW Vw
ACTION_CONSTRAINT Emit
