SPECIFICATION MSpec
CONSTANTS N = 5
 W = 4
INVARIANTS Symmetric AllAgree SameEnd WithCause OneBad Bounded
PROPERTY Ends
CHECK_DEADLOCK FALSE
