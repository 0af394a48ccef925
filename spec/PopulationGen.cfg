SPECIFICATION Spec
CONSTANTS MaxN = 4
          MaxSize = 3
          Dumps = {1, 2, 3}
          Outs = {"ok", "rows", "exotic", "warn", "value", "flow", "partial", "warnfail"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
