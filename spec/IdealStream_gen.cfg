SPECIFICATION Spec
CONSTANTS Lens = {0, 1, 2, 4}
 MaxMin = 3 
 MaxMax = 4 
 MaxSkip = 5
 EndKinds = {"clean"}
 PrintTests = TRUE
VIEW View
INVARIANTS ContractHolds
