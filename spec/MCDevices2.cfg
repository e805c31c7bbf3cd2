CONSTANT D = 2
CONSTANT R = 6
CONSTANT N = 2
CONSTANT Bufs = {1, 2}
CONSTANT MaxOps = 5
CONSTANT Platforms = {"0"}
CONSTANT DevNames = {"0"}
CONSTANT MaxGroups = 1
CONSTANT MaxDevs = 1
CONSTANT HavePlat = {"0"}
CONSTANT HaveDev = {"0"}
SPECIFICATION MSpec
INVARIANT Right
PROPERTY Agree
CHECK_DEADLOCK FALSE
