SPECIFICATION Spec
CONSTANTS
 Deep = TRUE
INVARIANTS Increasing InRange TauByGenerator TauOfNormal RhoByVolume RhoOfNormal DerivativesTrue InversesUndo TailsAreLimits Emit
CHECK_DEADLOCK FALSE
