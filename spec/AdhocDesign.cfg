CONSTANTS Ch = 1  Sizes = {1, 2, 4}  MaxBlocks = 2  MaxFrames = 6  MaxStreams = 2
SPECIFICATION Spec
INVARIANTS Good Shape
