SPECIFICATION PSpec
POSTCONDITION PConsumed
CHECK_DEADLOCK FALSE
