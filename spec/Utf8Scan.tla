------------------------------ MODULE Utf8Scan ------------------------------
(* The UTF-8 validator as implemented, one action per byte, against the       *)
(* declarative definition in Text, for all strings of representative bytes.   *)
EXTENDS Text, TLC, Json
CONSTANTS Bytes, MaxLen, PrintTests
VARIABLES t, nb, val, minval, cs, err      \* err: offset where rejected, -1: not rejected
vars == <<t, nb, val, minval, cs, err>>
Init == t = <<>> /\ nb = 0 /\ val = 0 /\ minval = 0 /\ cs = 0 /\ err = -1
Feed(c) ==
  LET p == Len(t) IN
  /\ Len(t) < MaxLen /\ t' = Append(t, c)
  /\ IF PrintTests THEN PrintT(<<"TEST", ToJson([t |-> t'])>>) ELSE TRUE
  /\ IF err # -1 THEN UNCHANGED <<nb, val, minval, cs, err>>
     ELSE IF nb > 0
     THEN IF ~(c \div 64 = 2) THEN err' = p /\ nb' = 0 /\ UNCHANGED <<val, minval, cs>>
          ELSE LET v == val * 64 + (c % 64) IN
               /\ val' = v /\ nb' = nb - 1 /\ UNCHANGED <<minval, cs>>
               /\ err' = IF nb = 1 /\ (v \in {65534, 65535} \/ v < minval \/ v > 1114111 \/ v \in 55296..57343) THEN p ELSE -1
     ELSE IF c \in 194..223 THEN cs' = p /\ val' = c % 32 /\ minval' = 128 /\ nb' = 1 /\ UNCHANGED err
     ELSE IF c \div 16 = 14 THEN cs' = p /\ val' = c % 16 /\ minval' = 2048 /\ nb' = 2 /\ UNCHANGED err
     ELSE IF c \in 240..244 THEN cs' = p /\ val' = c % 8 /\ minval' = 65536 /\ nb' = 3 /\ UNCHANGED err
     ELSE /\ err' = (IF c > 127 \/ (c < 32 /\ c \notin {9, 10, 13}) THEN p ELSE -1)
          /\ UNCHANGED <<nb, val, minval, cs>>
Next == \E c \in Bytes : Feed(c)
Spec == Init /\ [][Next]_vars
Result == [ev |-> "utf8", t |-> t, r |-> IF err # -1 THEN err ELSE IF nb > 0 THEN cs ELSE -1,
           nb |-> IF err # -1 THEN 0 ELSE nb, ok |-> IF err = -1 /\ nb = 0 THEN 1 ELSE 0, same |-> 1]
Correct == Utf8Fails(Result) = {}
BytesC == {9, 31, 65, 127, 128, 143, 144, 159, 160, 190, 191, 193, 194, 223, 224, 237, 239, 240, 244, 245, 255}
=============================================================================
