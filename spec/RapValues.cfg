SPECIFICATION EachValue
CHECK_DEADLOCK FALSE
