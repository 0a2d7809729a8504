SPECIFICATION TraceSpec
CONSTRAINT Reach
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANTS
  TInit <- GInit
  TStep <- GStep
