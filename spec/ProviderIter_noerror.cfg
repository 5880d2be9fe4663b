SPECIFICATION Spec
CONSTANTS MaxMembers = 2
 DataLens = {0, 1, 2, 3}
 Trails = {0, 2}
 Flts = {0, 1}
 Cuts = TRUE
 Anys = {TRUE, FALSE}
 MaxMin = 2
 MaxMax = 2
 Skips = {1, 2, 4}
 Resets = {0, 1, 3}
 MaxOps = 99
 Design = "noerror"
 PrintTests = FALSE
VIEW View
INVARIANTS ContractHolds OwnData EndIsTrue
PROPERTIES Final
CHECK_DEADLOCK FALSE
