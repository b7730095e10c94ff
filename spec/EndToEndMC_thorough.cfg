SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Meshes <- TMeshes
INVARIANTS ExactHolds CostExact MovesShow CutsShow KnownHolds KnownMoves
