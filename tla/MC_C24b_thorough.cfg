SPECIFICATION Spec
CONSTANTS
 MaxDim = 6
 MaxDoublings = 14
INVARIANTS One1 Marginal NormalLimit Stretch Mixture Peak Emit
CHECK_DEADLOCK FALSE
