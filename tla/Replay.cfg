CONSTANTS
  InitSt <- TInit
  NextSt <- TNext
  Failing <- TFailing
SPECIFICATION ReplaySpec
POSTCONDITION ReplayComplete
CHECK_DEADLOCK FALSE
