SPECIFICATION Spec
CONSTANTS Contents <- ContentsC
 Terms <- TermsC
 MaxMin = 4
 Maxs = {0, 1, 2, 4}
 MaxReset = 5
 Anys = {TRUE, FALSE}
INVARIANTS ContractHolds ParentInStep
CHECK_DEADLOCK FALSE
