SPECIFICATION Spec
CONSTANT DMax = 7
INVARIANTS Increasing AreZeros QuadratureExact QuadratureSharp DerivativeExact
CHECK_DEADLOCK FALSE
