CONSTANTS Depth = 3
          NCells = 2
          GiveKinds = {"params", "data", "named"}
          LibKinds = {"element", "refit", "eval", "draw"}
SPECIFICATION Spec
PROPERTIES LibraryLeavesCallerCells CallerLeavesCopula
INVARIANTS NeverSharedInv Emit
CHECK_DEADLOCK FALSE
