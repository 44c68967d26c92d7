SPECIFICATION MSpec
CONSTANTS Len0 = 6
INVARIANTS SameAsDefinition OnlySaturated AtMostOne Missing Lower All Emit
CHECK_DEADLOCK FALSE
