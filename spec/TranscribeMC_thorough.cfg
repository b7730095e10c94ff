SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxPhases = 3
 Meshes <- TMeshes
 Intervals <- TIntervals
INVARIANTS NoDuplicates Counts SolutionFits MovedIsNoticed LinkNotices CostExact ScaleInvariant
