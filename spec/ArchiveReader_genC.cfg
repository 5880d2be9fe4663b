SPECIFICATION GSpec
CONSTANTS World <- WorldC
 Urls <- UrlsC
 Listers = {"l1", "l2"}
 MaxObj = 5
 Moves = FALSE
 KeepLate = TRUE
 Depth = 12
INVARIANTS Contract
CHECK_DEADLOCK FALSE
