SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxPhases = 2
 Meshes <- QMeshes
 Intervals <- QIntervals
INVARIANTS NoDuplicates Counts SolutionFits MovedIsNoticed LinkNotices CostExact ScaleInvariant
