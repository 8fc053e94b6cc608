SPECIFICATION Spec
INVARIANTS NeverNaN Absorbing Documented
CHECK_DEADLOCK FALSE
