CONSTANTS Ch = 1  Sizes = {1, 2, 4}  MaxBlocks = 3  MaxFrames = 7  MaxStreams = 2
SPECIFICATION Spec
INVARIANTS Good Shape
