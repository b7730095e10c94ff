SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxSeg = 5
 MaxPts = 5
 Depth = 2
INVARIANT StaysValid
PROPERTIES Sound Sharp
