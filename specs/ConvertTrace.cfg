SPECIFICATION Spec
INVARIANT Accepted
ALIAS View
CHECK_DEADLOCK FALSE
