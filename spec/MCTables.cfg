CONSTANTS Zero = 1
 Bad = 9001
 Mark = 9002
 Missing = 9003
 MaxWords = 9
 MaxLines = 1
 MaxCount = 3
SPECIFICATION Spec
INVARIANT Decided
PROPERTY Finishes
CHECK_DEADLOCK FALSE
