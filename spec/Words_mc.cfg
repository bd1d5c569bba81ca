SPECIFICATION Spec
INVARIANTS WordLaws FloatLaws
CHECK_DEADLOCK FALSE
