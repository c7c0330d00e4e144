SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS Total RefusesBad TooFew OneForAll AliasIsName Laws Emit
CHECK_DEADLOCK FALSE
