CONSTANTS Cap = 4  Keys = {0, 1, 2, 3, 4}  Values = {1}
SPECIFICATION GSpec
VIEW Vw
ACTION_CONSTRAINT Emit
