CONSTANTS Zero = 1
 Bad = 9001
 Mark = 9002
 Missing = 9003
 MaxWords = 9
 MaxLines = 1
 MaxCount = 3
SPECIFICATION GSpec
CONSTRAINT GPrint
CHECK_DEADLOCK FALSE
