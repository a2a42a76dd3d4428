SPECIFICATION Spec
POSTCONDITION Consumed
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
