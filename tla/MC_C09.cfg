CONSTANTS N = 4
          K = 3
SPECIFICATION Spec
INVARIANTS RunningSum Bounded Odd Symmetric InversionUndoes Emit
CHECK_DEADLOCK FALSE
