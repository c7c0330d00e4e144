SPECIFICATION Spec
CONSTANTS MaxRow = 7 MaxQ = 5
INVARIANTS CountPermutations EulerSymmetry EulerExplicit SecondExplicit Orthogonal GumbelPositive GumbelDefinition SibuyaConvolution SibuyaDefinition FallSign
CHECK_DEADLOCK FALSE
