CONSTANTS N = 3
          K = 3
SPECIFICATION Spec
INVARIANTS DistributionFunction UniformMargins BetaForms Emit
CHECK_DEADLOCK FALSE
