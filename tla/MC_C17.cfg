SPECIFICATION Spec
CONSTANTS MaxLen = 3
INVARIANTS Total RefusesBad TooFew OneForAll AliasIsName Laws Emit
CHECK_DEADLOCK FALSE
