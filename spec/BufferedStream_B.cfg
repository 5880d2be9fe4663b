SPECIFICATION Spec
CONSTANTS Len0 = 4
          InitBuf = 0
          Declared = TRUE
          FaultAt <- NoFault
          MaxMin = 5
          MaxMax = 5
          MaxSkip = 5
INVARIANTS ContractHolds TypeOK BufferTrue Bounded
CHECK_DEADLOCK FALSE
