SPECIFICATION MSpec
CONSTANTS N = 6
 W = 3
INVARIANTS Symmetric AllAgree SameEnd WithCause OneBad Bounded
PROPERTY Ends
CHECK_DEADLOCK FALSE
