CONSTANTS MaxArgs = 3
 MaxSet = 2
 UsableDevices = {"0:0", "0:0,0"}
SPECIFICATION GSpec
CONSTRAINT GPrint
CHECK_DEADLOCK FALSE
