SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS AlwaysValid Emit
PROPERTIES RefusalChangesNothing OneFieldAtATime ConversionKeepsAll CopulaHoldsTheSet
CHECK_DEADLOCK FALSE
