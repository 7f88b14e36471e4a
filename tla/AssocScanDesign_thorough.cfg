CONSTANT NMax = 16
SPECIFICATION Spec
INVARIANTS NeverBad TreeOK Exclusive Prefixes
PROPERTY Terminates
CHECK_DEADLOCK FALSE
