SPECIFICATION Spec
CONSTANTS Lens = {0, 1, 2, 3, 5}
 MaxMin = 3 
 MaxMax = 4 
 MaxSkip = 4
 EndKinds = {"clean", "error"}
 PrintTests = FALSE
VIEW View
INVARIANTS ContractHolds TypeOK EofOnlyAtEnd SizeNeverWrong
PROPERTIES ErrorAbsorbing SizeStable
