SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Meshes <- QMeshes
INVARIANTS ExactHolds CostExact MovesShow CutsShow KnownHolds KnownMoves
