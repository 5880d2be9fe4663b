SPECIFICATION Spec
CONSTANTS Cap = 1
 MaxIn = 2
 MaxOps = 2
 Algo = "poll"
 Gen = 0
INVARIANTS TypeOK Conserved AtEof NoEarlyEnd Report
PROPERTIES Ends
CHECK_DEADLOCK FALSE
