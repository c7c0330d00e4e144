SPECIFICATION Spec
CONSTANTS
 MaxLen = 6
 MaxThreads = 3
INVARIANTS Deals Result NeverTwice Emit
CHECK_DEADLOCK FALSE
