CONSTANTS Ch = 3  MaxLen = 9  MaxNew = 9
  Ops = {"enc", "dec", "seek", "load"}
SPECIFICATION GSpec
INVARIANTS Good View
VIEW Seen
ACTION_CONSTRAINT Emit
