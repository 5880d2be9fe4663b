SPECIFICATION Spec
CONSTANTS Len0 = 4
          InitBuf = 3
          Declared = FALSE
          FaultAt = 2
          MaxMin = 5
          MaxMax = 5
          MaxSkip = 5
INVARIANTS ContractHolds TypeOK BufferTrue Bounded
CHECK_DEADLOCK FALSE
