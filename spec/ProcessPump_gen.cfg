SPECIFICATION Spec
CONSTANTS Cap = 1
 MaxIn = 2
 MaxOps = 3
 Algo = "poll"
 Gen = 1
INVARIANTS TypeOK Conserved AtEof NoEarlyEnd Report
PROPERTIES Ends
CHECK_DEADLOCK FALSE
