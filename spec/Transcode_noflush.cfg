SPECIFICATION Spec
CONSTANTS MaxChars = 2
 Widths = {1, 2}
 Yields = {1, 3}
 Cap = 3
 Pend = 4
 MaxSpace = 3
 Holds = {TRUE, FALSE}
 Design = "noflush"
 PrintTests = FALSE
INVARIANTS RefillHolds InStep
PROPERTIES Terminates Outcome
CHECK_DEADLOCK FALSE
