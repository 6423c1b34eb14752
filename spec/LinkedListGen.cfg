CONSTANTS MaxNodes = 4  Values = {1}
SPECIFICATION GSpec
VIEW Vw
ACTION_CONSTRAINT Emit
