CONSTANTS Cap = 3  Keys = {0, 1, 2, 3}  Values = {1}
SPECIFICATION GSpec
VIEW Vw
ACTION_CONSTRAINT Emit
