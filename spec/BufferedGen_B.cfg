SPECIFICATION GSpec
CONSTANTS Len0 = 6
 InitBuf = 1
 Declared = TRUE
 FaultAt <- NoFault
 MaxMin = 4
 MaxMax = 5
 MaxSkip = 6
 Depth = 8
