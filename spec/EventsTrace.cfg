SPECIFICATION EvSpec
CHECK_DEADLOCK FALSE
