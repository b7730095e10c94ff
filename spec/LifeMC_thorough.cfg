SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Ids = 3
 MaxProb = 3
 Sets = {"a", "b"}
 MaxOps = 7
INVARIANTS TranscribesOnlyWhenAsked BuiltIsAVersion
PROPERTIES RebuildIsEffective OnlyThatOne CopyOfTheProblem WithoutRebuildNothingChanges
