SPECIFICATION Spec
CONSTANTS MaxChars = 3
 Widths = {1, 2}
 Yields = {0, 1, 3}
 Cap = 3
 Pend = 4
 MaxSpace = 3
 Holds = {TRUE, FALSE}
 Design = "good"
 PrintTests = FALSE
INVARIANTS RefillHolds InStep
PROPERTIES Terminates Outcome
CHECK_DEADLOCK FALSE
