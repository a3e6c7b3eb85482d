CONSTANTS
  From = "all"
  Entries = 1
  MaxLen = 4
  MaxT = 2
  MaxN = 2
  MaxProds = 3
  MaxRhs = 2
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Shape Soundness Completeness ErrorIsFirst ExpectedExact ExpectedReported ValueIsTree
  BoundedReductions Requests ErrorPassedOn NoStuck GotoDefined
PROPERTY NoActionAfterBadToken
