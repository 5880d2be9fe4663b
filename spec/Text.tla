-------------------------------- MODULE Text --------------------------------
(* Declarative meaning of the text helpers: what they compute, not how.     *)
(* Texts are sequences of bytes 0..255.                                       *)
EXTENDS Integers, Sequences, FiniteSets

\* ---- first occurrence of a query -------------------------------------------
OccursAt(t, q, i) == i + Len(q) <= Len(t) /\ \A j \in 1..Len(q) : t[i + j] = q[j]
IsFirst(t, q, i) == OccursAt(t, q, i) /\ \A j \in 0..(i - 1) : ~OccursAt(t, q, j)
IsAbsent(t, q) == \A j \in 0..(Len(t) - Len(q)) : ~OccursAt(t, q, j)

\* ---- UTF-8 (RFC 3629) of XML characters --------------------------------------
Need(b) == IF b <= 127 THEN 1 ELSE IF b \in 194..223 THEN 2 ELSE IF b \in 224..239 THEN 3
           ELSE IF b \in 240..244 THEN 4 ELSE 0          \* 0: cannot start a character
Cont(b) == b \in 128..191
Value(s) == CASE Len(s) = 1 -> s[1]
              [] Len(s) = 2 -> (s[1] % 32) * 64 + (s[2] % 64)
              [] Len(s) = 3 -> (s[1] % 16) * 4096 + (s[2] % 64) * 64 + (s[3] % 64)
              [] OTHER -> (s[1] % 8) * 262144 + (s[2] % 64) * 4096 + (s[3] % 64) * 64 + (s[4] % 64)
MinOf(n) == CASE n = 1 -> 0 [] n = 2 -> 128 [] n = 3 -> 2048 [] OTHER -> 65536
XmlChar(v) == v \in {9, 10, 13} \/ v \in 32..55295 \/ v \in 57344..65533 \/ v \in 65536..1114111
GoodChar(s) == Len(s) = Need(s[1]) /\ (\A i \in 2..Len(s) : Cont(s[i])) /\ Value(s) >= MinOf(Len(s)) /\ XmlChar(Value(s))

\* offset (0-based) of the first character that is not complete and good, Len(t) if there is none
RECURSIVE FirstBad(_, _)
FirstBad(t, i) ==
  IF i >= Len(t) THEN Len(t)
  ELSE LET n == Need(t[i + 1]) IN
       IF n = 0 \/ i + n > Len(t) THEN i
       ELSE IF GoodChar(SubSeq(t, i + 1, i + n)) THEN FirstBad(t, i + n) ELSE i
WellFormed(t) == FirstBad(t, 0) = Len(t)
\* the rest from offset i is a character that only lacks its last bytes
Structural(t, i) == LET n == Need(t[i + 1]) IN n > Len(t) - i /\ \A j \in (i + 2)..Len(t) : Cont(t[j])
Completable(t, i) ==
  /\ Structural(t, i)
  /\ LET n == Need(t[i + 1]) IN
     Len(t) - i < 2 \/ LET b == t[i + 1] d == t[i + 2] IN
        /\ (b = 224 => d >= 160) /\ (b = 237 => d <= 159) /\ (b = 240 => d >= 144) /\ (b = 244 => d <= 143)
Missing(t, i) == Need(t[i + 1]) - (Len(t) - i)
\* length of the offending sequence that starts at offset i
BadLen(t, i) == LET n == Need(t[i + 1]) IN IF n = 0 THEN 1 ELSE IF i + n > Len(t) THEN Len(t) - i ELSE n

Utf8Fails(e) ==
  LET t == e.t i == FirstBad(t, 0) IN
       (IF (e.ok = 1) # (i = Len(t)) THEN {"U1-accepts-exactly-wellformed"} ELSE {})
  \cup (IF (e.r = -1) # (i = Len(t)) THEN {"U1-accepts-exactly-wellformed"} ELSE {})
  \cup (IF e.same # 1 THEN {"U2-overloads-agree"} ELSE {})
  \cup (IF i = Len(t) /\ e.nb # 0 THEN {"U3-missing-bytes"} ELSE {})
  \cup (IF i < Len(t) /\ e.r # -1 /\ ~(e.r >= i /\ e.r < i + BadLen(t, i)) THEN {"U4-error-position"} ELSE {})
  \cup (IF i < Len(t) /\ Completable(t, i) /\ (e.r # i \/ e.nb # Missing(t, i)) THEN {"U3-missing-bytes"} ELSE {})
  \cup (IF i < Len(t) /\ ~Structural(t, i) /\ e.nb # 0 THEN {"U3-missing-bytes"} ELSE {})

\* ---- newline conversion of valid text -------------------------------------------
NlFails(e) == IF WellFormed(e.t) /\ \E i \in 1..Len(e.t) : e.u[i] # (IF e.t[i] \in {10, 13} THEN 32 ELSE e.t[i])
              THEN {"U5-newlines"} ELSE {}
           \cup (IF e.z # 0 THEN {"U5-newlines"} ELSE {})

\* ---- search -----------------------------------------------------------------------
KmpFails(e) ==
       (IF e.r = -1 /\ ~IsAbsent(e.t, e.q) THEN {"K1-finds-occurrence"} ELSE {})
  \cup (IF e.r # -1 /\ ~OccursAt(e.t, e.q, e.r) THEN {"K2-is-occurrence"} ELSE {})
  \cup (IF e.r # -1 /\ OccursAt(e.t, e.q, e.r) /\ ~IsFirst(e.t, e.q, e.r) THEN {"K3-is-first"} ELSE {})
  \cup (IF e.ql # Len(e.q) \/ e.qs # 1 THEN {"K4-query"} ELSE {})

\* ---- integers: the bytes of the value, least significant first ------------------------
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Extend(s, fill) == [i \in 1..8 |-> IF i <= Len(s) THEN s[i] ELSE fill]
IntFails(e) ==
  LET le == e.t be == Rev(e.t) sign(s) == IF s[Len(s)] >= 128 THEN 255 ELSE 0 IN
       (IF e.lu # Extend(le, 0) \/ e.bu # Extend(be, 0) THEN {"I1-unsigned"} ELSE {})
  \cup (IF e.ls # Extend(le, sign(le)) \/ e.bs # Extend(be, sign(be)) THEN {"I2-signed"} ELSE {})

\* ---- base64 -----------------------------------------------------------------------------
Code(b) == IF b \in 65..90 THEN b - 65 ELSE IF b \in 97..122 THEN b - 71 ELSE IF b \in 48..57 THEN b + 4
           ELSE IF b = 43 THEN 62 ELSE IF b = 47 THEN 63 ELSE -1
\* the text up to the padding, reduced to the alphabet
Alphabetic(t) ==
  LET stop == IF \E i \in 1..Len(t) : t[i] = 61 THEN CHOOSE i \in 1..Len(t) : t[i] = 61 /\ \A j \in 1..(i - 1) : t[j] # 61
              ELSE Len(t) + 1
  IN SelectSeq(SubSeq(t, 1, stop - 1), LAMBDA b : Code(b) >= 0)
Padded(t) == \E i \in 1..Len(t) : t[i] = 61
Group(a, i) == LET v(j) == IF i + j <= Len(a) THEN Code(a[i + j]) ELSE 0 IN
               <<v(1) * 4 + v(2) \div 16, (v(2) % 16) * 16 + v(3) \div 4, (v(3) % 4) * 64 + v(4)>>
Decoded(t) ==
  LET a == Alphabetic(t) full == Len(a) \div 4 rest == Len(a) % 4
      tail == IF Padded(t) /\ rest >= 2 THEN rest - 1 ELSE 0
  IN [k \in 1..(3 * full + tail) |-> Group(a, 4 * ((k - 1) \div 3))[((k - 1) % 3) + 1]]
\* exactly what an encoder writes, without line breaks
Canonical(t) ==
  /\ Len(t) % 4 = 0
  /\ \A i \in 1..Len(t) : Code(t[i]) >= 0 \/ (t[i] = 61 /\ i >= Len(t) - 1 /\ t[Len(t)] = 61)
B64Fails(e) == IF Canonical(e.t) /\ e.u # Decoded(e.t) THEN {"B1-one-shot-decode"} ELSE {}
=============================================================================
