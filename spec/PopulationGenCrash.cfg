SPECIFICATION Spec
CONSTANTS MaxN = 4
          MaxSize = 3
          Dumps = {1, 2}
          Outs = {"ok", "value", "rows"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
