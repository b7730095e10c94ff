SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NPhases = 2
 NX = 2
 NU = 1
 MaxOps = 2
 WithResiduals = TRUE
INVARIANTS PointsPairUp OneVariablePerPanel EveryComponentOnce AsRequested NamesDiffer SomethingNamed PositionsDiffer
PROPERTIES OnlyAdds
