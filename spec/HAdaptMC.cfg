SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Limit = 6
 MaxCalls = 2
 Errs <- QErrs
 Meshes <- QMeshes
INVARIANTS SolvesAtMost WidthsOfTheAnswer ReturnsTheLast NoSolveAfterGoodAnswer NoEndlessStagnation
PROPERTY Terminates
