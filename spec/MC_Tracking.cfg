SPECIFICATION Spec
INVARIANTS Order Told Nowhere
CONSTANT N = 1
CHECK_DEADLOCK FALSE
