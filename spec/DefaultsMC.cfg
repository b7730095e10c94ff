SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxPhases = 3
 MaxStates = 2
 MaxSet = 2
INVARIANTS Kept Others Lengths BoundsMeet Start
