SPECIFICATION Spec
CONSTANTS Sys = {a, b}
          Files = {f, g}
          Depth = 4
INVARIANTS Thresholds Ordered OneVoice
CHECK_DEADLOCK FALSE
