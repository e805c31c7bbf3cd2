CONSTANTS MaxArgs = 4
 MaxSet = 1
 UsableDevices = {"0:0", "0:0,0"}
SPECIFICATION MSpec
INVARIANTS Reading Unmoved Override
CHECK_DEADLOCK FALSE
