SPECIFICATION Spec
CONSTANTS MaxMembers = 3
 DataLens = {0, 1, 2, 3}
 Trails = {0, 2}
 Flts = {0, 1}
 Cuts = TRUE
 Anys = {TRUE, FALSE}
 MaxMin = 2
 MaxMax = 2
 Skips = {1, 3}
 Resets = {0, 2}
 MaxOps = 99
 Design = "good"
 PrintTests = FALSE
VIEW View
INVARIANTS ContractHolds OwnData EndIsTrue
PROPERTIES Final
CHECK_DEADLOCK FALSE
