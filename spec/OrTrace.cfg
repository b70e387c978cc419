CONSTANT Std = FALSE
SPECIFICATION Spec
VIEW View
INVARIANT Done
POSTCONDITION Finished
CHECK_DEADLOCK FALSE
