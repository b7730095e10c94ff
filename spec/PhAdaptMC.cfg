SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Limit = 2
 MinDeg = 1
 MaxDeg = 7
 MaxSeg = 6
INVARIANTS MeshValid AtMostTwicePerIteration StopsExactlyWhenGood Steps
PROPERTY Terminates
