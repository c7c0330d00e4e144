SPECIFICATION Spec
CONSTANTS
 Dims = {1, 2, 3, 4}
 Diag = {0, 1, 2}
 Off <- COff
 Off4 <- COff4
INVARIANTS Symmetric FormAgrees SpectrumAgrees CholeskyAgrees RepairWorks NearestOfValid NearestOfTwo Emit
PROPERTY ReadBack
CHECK_DEADLOCK FALSE
