CONSTANT Depth = 0
CONSTANT NBuf = 4
SPECIFICATION GSpec
CONSTRAINT GPrint
CHECK_DEADLOCK FALSE
