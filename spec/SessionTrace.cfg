SPECIFICATION TSpec
CONSTANTS
  Handles = {}
  Files = {}
  Bufs = {}
  Worlds = {}
  Steps = {}
  Sets = {}
  MaxOps = 0
  MaxHist = 0
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
