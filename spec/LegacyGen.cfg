SPECIFICATION GSpec
CONSTANTS
  Handles = {"a"}
  Files = {}
  Bufs = {}
  Worlds = {"w1", "w2"}
  Steps = {"s1", "s2", "s3"}
  Sets = {}
  MaxOps = 24
  MaxHist = 7
INVARIANT Emit
CHECK_DEADLOCK FALSE
