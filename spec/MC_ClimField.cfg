SPECIFICATION MSpec
CONSTANTS Depth = 3
INVARIANTS LastPut SliceRange Emit
PROPERTIES Slices
CHECK_DEADLOCK FALSE
