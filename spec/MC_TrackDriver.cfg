SPECIFICATION CSpec
CONSTANTS
 MaxMonths = 4
 Ids = {"A", "B"}
 Gaps = {1, 2}
 Modes = {"all", "standard", "new", "noend"}
INVARIANTS NeverTwice NoneLost NothingElse Emit
PROPERTIES NotIntoAFullQueue Finishes
CHECK_DEADLOCK FALSE
