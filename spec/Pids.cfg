SPECIFICATION Spec
CONSTRAINT Progress
VIEW View
POSTCONDITION Report
CHECK_DEADLOCK FALSE
