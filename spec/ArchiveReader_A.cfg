SPECIFICATION Spec
CONSTANTS World <- WorldA
 Urls <- UrlsA
 Listers = {"l1"}
 MaxObj = 5
 Moves = FALSE
 KeepLate = TRUE
INVARIANTS Contract Counts NoNeed
CHECK_DEADLOCK FALSE
