SPECIFICATION Spec
VIEW View
CONSTANTS
  Handles = {"a", "b"}
  Files = {"f"}
  Bufs = {"m"}
  Worlds = {"w1", "w2"}
  Steps = {"s1", "s2"}
  Sets = {"u1"}
  MaxOps = 7
  MaxHist = 3
INVARIANTS TypeOK TimeIsSteps
PROPERTIES Isolation Purity Restores RefuseBad FilesStay Clock
CHECK_DEADLOCK FALSE
