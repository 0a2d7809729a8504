SPECIFICATION Spec
INVARIANTS RootRight RoomRight ProofsRight
CHECK_DEADLOCK FALSE
CONSTANTS
  Depths = {1, 2, 3}
  Values = {0, 1, 2}
  MaxStart = 3
  Record = FALSE
  Depth = 0
