SPECIFICATION Spec
CONSTANTS MaxSegs = 3 MaxDeg = 3
INVARIANTS Ownership DiffExact QuadExact InterpExact
CHECK_DEADLOCK FALSE
