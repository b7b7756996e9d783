SPECIFICATION Spec
VIEW View
POSTCONDITION Done
CHECK_DEADLOCK FALSE
