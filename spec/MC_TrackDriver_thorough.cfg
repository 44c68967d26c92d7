SPECIFICATION CSpec
CONSTANTS
 MaxMonths = 5
 Ids = {"A", "B"}
 Gaps = {1, 2, 3}
 Modes = {"all", "standard", "new", "noend"}
INVARIANTS NeverTwice NoneLost NothingElse Emit
PROPERTIES NotIntoAFullQueue Finishes
CHECK_DEADLOCK FALSE
