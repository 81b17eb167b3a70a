SPECIFICATION RSpec
CONSTANTS
  NL = 8
  LB = 8
  BaseWords <- HdrWords
  XtOf <- HdrXt
  DSCap <- HdrCap
  H0 <- HdrHere
  GuardD <- HdrGuardD
  GuardR <- HdrGuardR
  GuardF <- HdrGuardF
INVARIANTS TypeOK EditOK
VIEW RView
CHECK_DEADLOCK FALSE
