SPECIFICATION Spec
CONSTANTS
 Deep = FALSE
INVARIANTS Increasing InRange TauByGenerator TauOfNormal RhoByVolume RhoOfNormal DerivativesTrue InversesUndo TailsAreLimits Emit
CHECK_DEADLOCK FALSE
