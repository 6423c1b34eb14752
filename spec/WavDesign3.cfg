CONSTANTS Ch = 3  MaxLen = 9  MaxNew = 15
SPECIFICATION Spec
INVARIANTS Good View
