SPECIFICATION Spec
CONSTANTS MaxMembers = 3
 DataLens = {0, 1, 2, 3}
 Trails = {0, 2}
 Flts = {0, 1}
 Cuts = TRUE
 Anys = {TRUE, FALSE}
 MaxMin = 2
 MaxMax = 3
 Skips = {0, 1, 2, 4}
 Resets = {0, 1, 3}
 MaxOps = 12
 Design = "good"
 PrintTests = TRUE

INVARIANTS ContractHolds
CHECK_DEADLOCK FALSE
