SPECIFICATION Spec
CONSTANTS
  MaxN = 2
  MaxSteps = 4
INVARIANTS PictureIsDrawn Readable OwnBlocks Oriented Solids Frames
CHECK_DEADLOCK FALSE
