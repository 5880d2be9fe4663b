SPECIFICATION Spec
CONSTANTS Contents <- ContentsS
 Terms <- TermsC
 MaxMin = 2
 Maxs = {0, 1, 3}
 MaxReset = 3
 Anys = {TRUE, FALSE}
INVARIANTS ContractHolds ParentInStep
CHECK_DEADLOCK FALSE
