SPECIFICATION Spec
CONSTANTS MaxTokens = 3
 Yields = {0, 1, 4}
 Tails = {0, 2}
 MaxSpace = 3
 Anys = {TRUE, FALSE}
 Design = "noreset"
INVARIANTS RefillHolds InStep
PROPERTIES Terminates Outcome
CHECK_DEADLOCK FALSE
