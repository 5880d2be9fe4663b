SPECIFICATION GSpec
CONSTANTS Len0 = 7
 InitBuf = 2
 Declared = FALSE
 FaultAt <- NoFault
 MaxMin = 4
 MaxMax = 5
 MaxSkip = 6
 Depth = 8
