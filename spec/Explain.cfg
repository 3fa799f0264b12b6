CONSTANTS
  Conns = {1, 2, 3, 4, 5, 6}
  ConnectTime = 60000
  Slack = 250
  MemSlack = 6000
  Eager = TRUE
  Budget = 20
SPECIFICATION T_Spec
CONSTRAINT Explaining
VIEW View
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
