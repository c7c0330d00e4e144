CONSTANTS Depth = 4
          Seeds = {0, 5}
          Sizes = {1, 3}
SPECIFICATION Spec
INVARIANTS Reproducible Fresh SeedsDiffer Emit
PROPERTY NamesStay
CHECK_DEADLOCK FALSE
