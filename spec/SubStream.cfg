SPECIFICATION Spec
CONSTANTS Lens = {0, 1, 3, 5}
 Wins <- WinsC
 MaxMin = 3
 MaxMax = 4
 MaxSkip = 4
 Anys = {TRUE, FALSE}
INVARIANTS ContractHolds NeverBeyond InStep
CHECK_DEADLOCK FALSE
