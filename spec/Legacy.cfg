SPECIFICATION LSpec
VIEW View
CONSTANTS
  Handles = {"a"}
  Files = {}
  Bufs = {}
  Worlds = {"w1", "w2"}
  Steps = {"s1", "s2"}
  Sets = {}
  MaxOps = 7
  MaxHist = 4
INVARIANTS TypeOK TimeIsSteps
PROPERTIES Apart Replaced Nothing
CHECK_DEADLOCK FALSE
