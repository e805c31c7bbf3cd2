CONSTANT D = 4
CONSTANT R = 3
CONSTANT N = 4
CONSTANT Bufs = {1, 2}
CONSTANT MaxOps = 3
CONSTANT Platforms = {"0"}
CONSTANT DevNames = {"0"}
CONSTANT MaxGroups = 1
CONSTANT MaxDevs = 1
CONSTANT HavePlat = {"0"}
CONSTANT HaveDev = {"0"}
SPECIFICATION MSpec
INVARIANT Right
PROPERTY Agree
CHECK_DEADLOCK FALSE
