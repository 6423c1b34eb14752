CONSTANTS MaxNodes = 5  Values = {1}
SPECIFICATION GSpec
VIEW Vw
ACTION_CONSTRAINT Emit
