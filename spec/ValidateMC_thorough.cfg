SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Faulty = 2
INVARIANT Right
