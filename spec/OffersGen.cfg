SPECIFICATION GenSpec
INVARIANTS Holds Slots Single Leaks Stored Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Configs <- GenConfigs
  Askers = {}
  OfferLists = {}
  Keys0 = {}
  Values <- GenValues
  MaxOffers = 100
  MaxFinds = 100
  MaxLooks = 100
  Record = TRUE
  Depth = 24
