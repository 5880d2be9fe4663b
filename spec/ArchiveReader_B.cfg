SPECIFICATION Spec
CONSTANTS World <- WorldB
 Urls <- UrlsB
 Listers = {"l1", "l2"}
 MaxObj = 5
 Moves = FALSE
 KeepLate = TRUE
INVARIANTS Contract Counts NoNeed
CHECK_DEADLOCK FALSE
