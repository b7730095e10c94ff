SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Ids = 2
 MaxProb = 3
 Sets = {"a", "b"}
 MaxOps = 6
INVARIANTS TranscribesOnlyWhenAsked BuiltIsAVersion
PROPERTIES RebuildIsEffective OnlyThatOne CopyOfTheProblem WithoutRebuildNothingChanges
