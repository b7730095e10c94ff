SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Limit = 3
 MinDeg = 1
 MaxDeg = 7
 MaxSeg = 5
INVARIANTS MeshValid AtMostTwicePerIteration StopsExactlyWhenGood Steps
PROPERTY Terminates
