SPECIFICATION Spec
INVARIANTS Holds Slots Single Leaks Stored
CHECK_DEADLOCK FALSE
CONSTANTS
  Configs <- LookConfigs
  Askers = {1, 2}
  OfferLists <- LookLists
  Keys0 = {1, 3}
  Values <- LookValues
  MaxOffers = 1
  MaxFinds = 1
  MaxLooks = 1
  Record = FALSE
  Depth = 0
