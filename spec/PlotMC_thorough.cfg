SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NPhases = 3
 NX = 3
 NU = 2
 MaxOps = 2
 WithResiduals = TRUE
INVARIANTS PointsPairUp OneVariablePerPanel EveryComponentOnce AsRequested NamesDiffer SomethingNamed PositionsDiffer
PROPERTIES OnlyAdds
