SPECIFICATION Spec
CONSTANT DMax = 24
INVARIANTS Increasing AreZeros QuadratureExact QuadratureSharp DerivativeExact
CHECK_DEADLOCK FALSE
