SPECIFICATION Spec
CONSTANTS Cap = 2
 MaxIn = 3
 MaxOps = 4
 Algo = "poll"
 Gen = 0
INVARIANTS TypeOK Conserved AtEof NoEarlyEnd Report
PROPERTIES Ends
CHECK_DEADLOCK FALSE
