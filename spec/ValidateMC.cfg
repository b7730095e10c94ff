SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Faulty = 1
INVARIANT Right
PROPERTY Decides
