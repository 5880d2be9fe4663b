SPECIFICATION GSpec
CONSTANTS World <- WorldC
 Urls <- UrlsC
 Listers = {"l1"}
 MaxObj = 5
 Moves = FALSE
 KeepLate = TRUE
 Depth = 3
INVARIANTS Contract
CHECK_DEADLOCK FALSE
