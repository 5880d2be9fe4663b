SPECIFICATION Spec
CONSTANTS MaxTokens = 4
 Yields = {0, 1, 2, 5}
 Tails = {0, 2}
 MaxSpace = 3
 Anys = {TRUE, FALSE}
 Design = "good"
INVARIANTS RefillHolds InStep
PROPERTIES Terminates Outcome
CHECK_DEADLOCK FALSE
