SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NPhases = 2
 NX = 2
 NU = 2
 MaxOps = 2
 WithResiduals = FALSE
INVARIANTS PointsPairUp OneVariablePerPanel EveryComponentOnce AsRequested NamesDiffer SomethingNamed PositionsDiffer
PROPERTIES OnlyAdds
