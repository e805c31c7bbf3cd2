CONSTANT D = 1
CONSTANT R = 1
CONSTANT N = 1
CONSTANT Bufs = {1}
CONSTANT MaxOps = 1
CONSTANT Platforms = {"0", "1", "x", ""}
CONSTANT DevNames = {"0", "1", "x"}
CONSTANT MaxGroups = 2
CONSTANT MaxDevs = 3
CONSTANT HavePlat = {"0"}
CONSTANT HaveDev = {"0"}
SPECIFICATION GSpec
CONSTRAINT GPrint
CHECK_DEADLOCK FALSE
