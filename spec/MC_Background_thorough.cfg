SPECIFICATION CSpec
CONSTANTS
 MaxLen = 6
 Kinds = {"good", "bad", "hot", "vague"}
INVARIANTS WalkIsDefinition StartIsPrefixEndIsSuffix SomethingIsLeft GoodRecordsPass BadThroughoutHasNoTails StopsAtUnreliable TerminatesWell LongOrShort Emit
CHECK_DEADLOCK FALSE
