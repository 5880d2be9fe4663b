----------------------------- MODULE Base64Scan -----------------------------
(* The streaming base64 decoder as implemented: fillBuffer() is called with   *)
(* any amount of space and stops anywhere in the text. Checked: what was        *)
(* written is always a prefix of the decoded text, and all of it at the end.    *)
EXTENDS Text, TLC
CONSTANTS Syms, MaxLen
VARIABLES t, i, bits, count, todo, closed, out, space, nw, ended
vars == <<t, i, bits, count, todo, closed, out, space, nw, ended>>
Init == /\ t \in UNION {[1..n -> Syms] : n \in 0..MaxLen}
        /\ i = 0 /\ bits = 0 /\ count = 0 /\ todo = 0 /\ closed = FALSE /\ out = <<>> /\ space = 0 /\ nw = 0 /\ ended = FALSE
B(k) == (bits \div (IF k = 3 THEN 65536 ELSE IF k = 2 THEN 256 ELSE 1)) % 256
\* start of a call of fillBuffer with n bytes of space
Call(n) ==
  /\ space = 0 /\ ~ended
  /\ IF closed /\ todo = 0 THEN ended' = TRUE /\ UNCHANGED <<t, i, bits, count, todo, closed, out, space, nw>>
     ELSE IF todo > 0
     THEN /\ out' = Append(out, B(todo)) /\ todo' = todo - 1
          /\ IF todo = 1 THEN bits' = 0 /\ count' = 0 ELSE UNCHANGED <<bits, count>>
          /\ UNCHANGED <<t, i, closed, space, nw, ended>>
     ELSE space' = n /\ nw' = 0 /\ UNCHANGED <<t, i, bits, count, todo, closed, out, ended>>
\* one character inside a call
Char ==
  /\ space > 0
  /\ IF i = Len(t)
     THEN /\ closed' = TRUE /\ space' = 0 /\ ended' = (nw = 0)
          /\ UNCHANGED <<t, i, bits, count, todo, out, nw>>
     ELSE LET c == t[i + 1] IN
          /\ i' = i + 1
          /\ IF c = 61
             THEN /\ closed' = TRUE /\ space' = 0
                  /\ todo' = (IF count = 2 THEN 1 ELSE IF count = 3 THEN 2 ELSE 0)
                  /\ bits' = (IF count = 2 THEN bits \div 1024 ELSE IF count = 3 THEN bits \div 256 ELSE bits)
                  /\ ended' = (nw = 0 /\ todo' = 0)
                  /\ UNCHANGED <<t, count, out, nw>>
             ELSE IF Code(c) < 0 THEN UNCHANGED <<t, bits, count, todo, closed, out, space, nw, ended>>
             ELSE LET b == bits + Code(c) IN
                  IF count < 3 THEN bits' = b * 64 /\ count' = count + 1 /\ UNCHANGED <<t, todo, closed, out, space, nw, ended>>
                  ELSE LET bytes == <<b \div 65536, (b \div 256) % 256, b % 256>>
                           k == IF space - nw >= 3 THEN 3 ELSE space - nw
                       IN /\ out' = out \o SubSeq(bytes, 1, k) /\ nw' = nw + k /\ todo' = 3 - k
                          /\ IF k = 3 THEN bits' = 0 /\ count' = 0 /\ UNCHANGED space
                             ELSE bits' = b /\ count' = 4 /\ space' = 0
                          /\ UNCHANGED <<t, closed, ended>>
Next == Char \/ \E n \in {1, 2, 4} : Call(n)
Spec == Init /\ [][Next]_vars
Prefix == out = SubSeq(Decoded(t), 1, Len(out))
Complete == ended => out = Decoded(t)
SymsC == {65, 107, 47, 10, 61}
=============================================================================
