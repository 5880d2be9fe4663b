SPECIFICATION GSpec
CONSTANTS Len0 = 6
 InitBuf = 3
 Declared = FALSE
 FaultAt = 4
 MaxMin = 4
 MaxMax = 5
 MaxSkip = 6
 Depth = 8
