CONSTANT Depth = 2
CONSTANT NBuf = 3
SPECIFICATION Spec
INVARIANT Shape
INVARIANT Laws
PROPERTY OneDest
CHECK_DEADLOCK FALSE
