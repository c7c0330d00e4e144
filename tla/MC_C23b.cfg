SPECIFICATION Spec
CONSTANTS
 MaxLen = 4
 MaxThreads = 3
INVARIANTS Deals Result NeverTwice Emit
CHECK_DEADLOCK FALSE
