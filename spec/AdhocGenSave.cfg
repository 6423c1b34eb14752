CONSTANTS Ch = 1  Sizes = {1, 4}  MaxBlocks = 2  MaxFrames = 5  MaxStreams = 2
  Ops = {"enc", "dec", "init", "seek", "save"}
SPECIFICATION GSpec
INVARIANTS Good Shape
VIEW Seen
ACTION_CONSTRAINT Emit
