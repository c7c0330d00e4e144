CONSTANTS N = 4
          K = 3
SPECIFICATION Spec
INVARIANTS DistributionFunction UniformMargins BetaForms Emit
CHECK_DEADLOCK FALSE
