CONSTANT NMax = 8
SPECIFICATION Spec
INVARIANTS NeverBad TreeOK Exclusive Prefixes
PROPERTY Terminates
CHECK_DEADLOCK FALSE
