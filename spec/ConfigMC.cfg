SPECIFICATION Spec
CONSTANTS NLines = 1
 NArgs = 3
INVARIANTS Precedence NoAliasLeft NeverNewFields OkIsLegal
PROPERTY Ends
CHECK_DEADLOCK FALSE
