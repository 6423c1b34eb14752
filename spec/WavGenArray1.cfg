CONSTANTS Ch = 1  MaxLen = 6  MaxNew = 16
  Ops = {"enc", "dec", "start"}
SPECIFICATION GSpec
INVARIANTS Good View
VIEW Seen
ACTION_CONSTRAINT Emit
