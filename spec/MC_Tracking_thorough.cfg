SPECIFICATION Spec
INVARIANTS Order Told Nowhere
CONSTANT N = 2
CHECK_DEADLOCK FALSE
