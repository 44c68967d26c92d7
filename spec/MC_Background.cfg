SPECIFICATION CSpec
CONSTANTS
 MaxLen = 4
 Kinds = {"good", "bad", "hot", "day", "vague"}
INVARIANTS WalkIsDefinition StartIsPrefixEndIsSuffix SomethingIsLeft GoodRecordsPass BadThroughoutHasNoTails StopsAtUnreliable TerminatesWell LongOrShort Emit
CHECK_DEADLOCK FALSE
