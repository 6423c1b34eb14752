CONSTANTS Ch = 3  Sizes = {1, 3}  MaxBlocks = 2  MaxFrames = 4  MaxStreams = 2
  Ops = {"enc", "none", "dec", "init", "cnt", "ragged"}
SPECIFICATION GSpec
INVARIANTS Good Shape
VIEW Seen
ACTION_CONSTRAINT Emit
