INIT TInit
NEXT SNext
CHECK_DEADLOCK FALSE
