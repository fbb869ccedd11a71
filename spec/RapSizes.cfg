SPECIFICATION Sizes
CHECK_DEADLOCK FALSE
