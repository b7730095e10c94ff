SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Meshes <- TMeshes
 Intervals <- TIntervals
 Cells = 4
 MaxAsk = 1
 Small = TRUE
INVARIANTS NodesAreTheSolution InterpolationIsTheSolution DistributionKeepsPositions DefectsAreTrue IntegralsAreTrue CurvatureIsTrue
