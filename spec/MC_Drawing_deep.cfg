SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  MaxSteps = 2
INVARIANTS PictureIsDrawn Readable OwnBlocks Oriented Solids Frames
CHECK_DEADLOCK FALSE
