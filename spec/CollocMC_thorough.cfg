SPECIFICATION Spec
CONSTANTS MaxSegs = 4 MaxDeg = 4
INVARIANTS Ownership DiffExact QuadExact InterpExact
CHECK_DEADLOCK FALSE
