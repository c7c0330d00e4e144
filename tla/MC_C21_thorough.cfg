SPECIFICATION Spec
CONSTANTS
 Dims = {1, 2, 3, 4}
 Diag <- CDiagT
 Off <- COff
 Off4 <- COff4T
INVARIANTS Symmetric FormAgrees SpectrumAgrees CholeskyAgrees RepairWorks NearestOfValid NearestOfTwo Emit
PROPERTY ReadBack
CHECK_DEADLOCK FALSE
