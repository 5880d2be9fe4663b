SPECIFICATION Spec
CONSTANTS Lens = {0, 1, 2, 4}
 Stops <- StopsC
 MaxMin = 3
 Maxs = {0, 1, 2, 4}
 MaxSkip = 5
 Anys = {TRUE, FALSE}
INVARIANTS ContractHolds ListenerPrefix EverythingSeen
CHECK_DEADLOCK FALSE
