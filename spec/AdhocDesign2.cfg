CONSTANTS Ch = 2  Sizes = {1, 3}  MaxBlocks = 2  MaxFrames = 4  MaxStreams = 2
SPECIFICATION Spec
INVARIANTS Good Shape
