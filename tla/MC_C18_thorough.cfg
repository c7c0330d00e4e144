SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS AlwaysValid Emit
PROPERTIES RefusalChangesNothing OneFieldAtATime ConversionKeepsAll CopulaHoldsTheSet
CHECK_DEADLOCK FALSE
