SPECIFICATION GSpec
CONSTANTS Len0 = 9
 InitBuf = 4
 Declared = FALSE
 FaultAt <- NoFault
 MaxMin = 4
 MaxMax = 5
 MaxSkip = 6
 Depth = 8
