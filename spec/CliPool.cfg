SPECIFICATION Spec
CONSTANTS
 Inputs = {1, 2, 3, 4}
 Workers = {1, 2, 3}
INVARIANTS Result OnlyGood
PROPERTY Ends
