SPECIFICATION Spec
PROPERTIES Aware NoFalseAlarm
CHECK_DEADLOCK FALSE
