------------------------------ MODULE HeaderScan ------------------------------
(* The automaton that validates mail headers, one action per byte, against the  *)
(* declarative definition in Magic, for all texts of representative bytes.      *)
EXTENDS Magic, TLC, Json
CONSTANTS Bytes, MaxLen, PrintTests
VARIABLES t, q
vars == <<t, q>>
Init == t = <<>> /\ q = "name"
Step(s, c) ==
  LET name == IF c = 58 THEN "value" ELSE IF c \in 33..126 THEN "name" ELSE "no"
      value == IF c = 13 THEN "cr" ELSE IF c > 127 THEN "no" ELSE "value"
  IN CASE s = "name" -> name
       [] s = "value" -> value
       [] s = "cr" -> IF c = 10 THEN "line" ELSE value
       [] s = "line" -> IF c \in {9, 32} THEN "value" ELSE IF c = 13 THEN "end" ELSE name
       [] s = "end" -> IF c = 10 THEN "body" ELSE "no"
       [] s = "body" -> IF c > 127 THEN "no" ELSE "body"
       [] OTHER -> "no"
Feed(c) ==
  /\ Len(t) < MaxLen /\ t' = Append(t, c) /\ q' = Step(q, c)
  /\ IF PrintTests THEN PrintT(<<"TEST", ToJson([t |-> t'])>>) ELSE TRUE
Next == \E c \in Bytes : Feed(c)
Spec == Init /\ [][Next]_vars
Correct == (q # "no") = IsMail(t)
BytesC == {10, 13, 32, 58, 97, 128}
BytesW == {9, 10, 13, 31, 32, 33, 58, 126, 127, 128}
=============================================================================
