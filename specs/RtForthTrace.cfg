SPECIFICATION Spec
CONSTANTS
  NL = 8
  LB = 8
  BaseWords <- HdrWords
  XtOf <- HdrXt
  DSCap <- HdrCap
  H0 <- HdrHere
  GuardD <- HdrGuardD
  GuardR <- HdrGuardR
  GuardF <- HdrGuardF
INVARIANTS TypeOK
VIEW View
CHECK_DEADLOCK FALSE
