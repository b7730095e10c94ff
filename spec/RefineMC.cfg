SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxSeg = 4
 MaxPts = 5
 Depth = 1
INVARIANT StaysValid
PROPERTIES Sound Sharp
