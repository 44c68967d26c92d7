SPECIFICATION MSpec
CONSTANTS Len0 = 9
INVARIANTS SameAsDefinition OnlySaturated AtMostOne Missing Lower All Emit
CHECK_DEADLOCK FALSE
