CONSTANTS Ch = 2  Sizes = {1, 2, 4}  MaxBlocks = 3  MaxFrames = 8  MaxStreams = 1
  Ops = {"enc", "dec", "init", "ragged"}
SPECIFICATION GSpec
INVARIANTS Good Shape
VIEW Seen
ACTION_CONSTRAINT Emit
