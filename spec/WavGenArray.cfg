CONSTANTS Ch = 2  MaxLen = 8  MaxNew = 16
  Ops = {"enc", "dec", "start"}
SPECIFICATION GSpec
INVARIANTS Good View
VIEW Seen
ACTION_CONSTRAINT Emit
