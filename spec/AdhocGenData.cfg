CONSTANTS Ch = 2  Sizes = {1, 2, 3, 4}  MaxBlocks = 3  MaxFrames = 9  MaxStreams = 1
  Ops = {"enc", "dec", "init"}
SPECIFICATION GSpec
INVARIANTS Good Shape
VIEW Seen
ACTION_CONSTRAINT Emit
