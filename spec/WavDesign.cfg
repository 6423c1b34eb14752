CONSTANTS Ch = 2  MaxLen = 6  MaxNew = 8
SPECIFICATION Spec
INVARIANTS Good View
