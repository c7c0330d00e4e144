SPECIFICATION Spec
CONSTANTS
 MaxDim = 3
 MaxDoublings = 7
INVARIANTS One1 Marginal NormalLimit Stretch Mixture Peak Emit
CHECK_DEADLOCK FALSE
