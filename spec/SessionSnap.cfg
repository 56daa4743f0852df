SPECIFICATION GSpec
CONSTANTS
  Handles = {"a", "b", "c"}
  Files = {"f", "g"}
  Bufs = {"m"}
  Worlds = {"w1", "w2"}
  Steps = {"s1", "s2", "s3"}
  Sets = {"u1", "u2"}
  MaxOps = 24
  MaxHist = 9
  Quiet = {"misuse", "nop", "damage", "obs"}
  Noisy = {}
  Theme = "snap"
INVARIANT Emit
CHECK_DEADLOCK FALSE
