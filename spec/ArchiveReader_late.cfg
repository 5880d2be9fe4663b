SPECIFICATION Spec
CONSTANTS World <- WorldA
 Urls <- UrlsA
 Listers = {"l1", "l2"}
 MaxObj = 5
 Moves = FALSE
 KeepLate = FALSE
INVARIANTS Contract Counts NoNeed
CHECK_DEADLOCK FALSE
