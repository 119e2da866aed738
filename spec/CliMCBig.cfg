CONSTANT N = 4
SPECIFICATION Spec
INVARIANTS Verdict Apart Silent Stop Less Told
PROPERTY Done
CHECK_DEADLOCK FALSE
