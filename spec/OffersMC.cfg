SPECIFICATION Spec
INVARIANTS Holds Slots Single Leaks Stored
CHECK_DEADLOCK FALSE
CONSTANTS
  Configs <- MCConfigs
  Askers = {1, 2, 3}
  OfferLists <- MCLists
  Keys0 = {1, 3}
  Values <- MCValues
  MaxOffers = 2
  MaxFinds = 1
  MaxLooks = 0
  Record = FALSE
  Depth = 0
