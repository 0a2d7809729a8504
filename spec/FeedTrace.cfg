SPECIFICATION TraceSpec
CONSTRAINT Reach
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANTS
  TInit <- FInit
  TStep <- FStep
