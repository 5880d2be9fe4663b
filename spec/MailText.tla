------------------------------ MODULE MailText ------------------------------
(* The header fields of a mail: lines, folding, and words in other character   *)
(* sets (RFC 5322, RFC 2047). Texts are sequences of bytes; offsets are 0-based. *)
EXTENDS Text
B(t, i) == t[i + 1]
Blank(b) == b \in {9, 32}
Space(b) == b \in {9, 10, 11, 12, 13, 32}
Lower(b) == IF b \in 65..90 THEN b + 32 ELSE b
MinOfSet(s, d) == IF s = {} THEN d ELSE CHOOSE x \in s : \A y \in s : x <= y
\* the line ends as CR LF or as LF; length of the line end at i
Eol(t, i) == IF i + 1 < Len(t) /\ B(t, i) = 13 /\ B(t, i + 1) = 10 THEN 2 ELSE IF i < Len(t) /\ B(t, i) = 10 THEN 1 ELSE 0
Fold(t, i) == LET n == Eol(t, i) IN IF n > 0 /\ i + n < Len(t) /\ Blank(B(t, i + n)) THEN n ELSE 0

\* ---- encoded words -----------------------------------------------------------
Next1(t, b, i) == MinOfSet({k \in i..(Len(t) - 1) : B(t, k) = b}, Len(t))
At2(t, i) == i + 1 < Len(t) /\ B(t, i) = 61 /\ B(t, i + 1) = 63        \* =?
\* the bounds of  =?charset?encoding?text?=  at i, none if the text has not this shape
Parts(t, i) ==
  LET c1 == Next1(t, 63, i + 2)
      c2 == Next1(t, 63, c1 + 1)
      c3 == Next1(t, 63, c2 + 1)
  IN IF At2(t, i) /\ c3 + 1 < Len(t) /\ B(t, c3 + 1) = 61 /\ c1 > i + 2 /\ c2 = c1 + 2 /\ c3 > c2 + 1
        /\ \A k \in (i + 2)..(c3 - 1) : B(t, k) \in 33..126
     THEN [ok |-> TRUE, cs |-> [k \in 1..(c1 - i - 2) |-> Lower(B(t, i + 1 + k))], enc |-> Lower(B(t, c1 + 1)),
           txt |-> SubSeq(t, c2 + 2, c3), len |-> c3 + 2 - i]
     ELSE [ok |-> FALSE]
Utf8 == <<117, 116, 102, 45, 56>>
Latin1 == <<105, 115, 111, 45, 56, 56, 53, 57, 45, 49>>
\* of these only the characters are specified that stand for themselves, and the Hebrew letters
Hebrew == <<119, 105, 110, 100, 111, 119, 115, 45, 49, 50, 53, 53>>
Viet == <<119, 105, 110, 100, 111, 119, 115, 45, 49, 50, 53, 56>>
Hex(b) == IF b \in 48..57 THEN b - 48 ELSE IF b \in 65..70 THEN b - 55 ELSE IF b \in 97..102 THEN b - 87 ELSE -1
RECURSIVE QGood(_, _), QText(_, _)
QGood(t, i) == IF i >= Len(t) THEN TRUE
               ELSE IF B(t, i) = 61 THEN i + 2 < Len(t) /\ Hex(B(t, i + 1)) >= 0 /\ Hex(B(t, i + 2)) >= 0 /\ QGood(t, i + 3)
               ELSE QGood(t, i + 1)
QText(t, i) == IF i >= Len(t) THEN <<>>
               ELSE IF B(t, i) = 61 THEN <<16 * Hex(B(t, i + 1)) + Hex(B(t, i + 2))>> \o QText(t, i + 3)
               ELSE <<IF B(t, i) = 95 THEN 32 ELSE B(t, i)>> \o QText(t, i + 1)
RECURSIVE FromLatin1(_)
FromLatin1(s) == IF s = <<>> THEN <<>>
                 ELSE (IF Head(s) < 128 THEN <<Head(s)>> ELSE <<192 + (Head(s) \div 64), 128 + (Head(s) % 64)>>) \o FromLatin1(Tail(s))
RECURSIVE FromHebrew(_)
FromHebrew(s) == IF s = <<>> THEN <<>>
                 ELSE (IF Head(s) < 128 THEN <<Head(s)>> ELSE <<215, Head(s) - 80>>) \o FromHebrew(Tail(s))
Bytes(p) == IF p.enc = 98 THEN Decoded(p.txt) ELSE QText(p.txt, 0)
Specified(p) == \/ p.cs \in {Utf8, Latin1}
                \/ p.cs = Hebrew /\ \A b \in {Bytes(p)[k] : k \in DOMAIN Bytes(p)} : b \in (0..127) \cup (224..250)
                \/ p.cs = Viet /\ \A b \in {Bytes(p)[k] : k \in DOMAIN Bytes(p)} : b \in 0..127
\* what is at i: a word, plain text, or text whose meaning RFC 2047 leaves to the reader
Kind(t, i) ==
  LET p == Parts(t, i) IN
  IF ~At2(t, i) THEN "plain"
  ELSE IF p.ok /\ p.enc \notin {98, 113} THEN "plain"
  ELSE IF p.ok /\ (IF p.enc = 98 THEN Canonical(p.txt) ELSE QGood(p.txt, 0)) /\ Specified(p) THEN "word"
  ELSE IF \E k \in (i + 4)..(Len(t) - 2) : B(t, k) = 63 /\ B(t, k + 1) = 61 THEN "unclear"
  ELSE "plain"
WordText(p) ==
  CASE p.cs = Latin1 -> FromLatin1(Bytes(p))
    [] p.cs = Hebrew -> FromHebrew(Bytes(p))
    [] OTHER -> Bytes(p)
\* white space between two words is not part of the text
AfterGap(t, i) == MinOfSet({k \in i..(Len(t) - 1) : B(t, k) \notin {9, 10, 13, 32}}, Len(t))

RECURSIVE Clear(_, _), FieldText(_, _)
Clear(t, i) == IF i >= Len(t) THEN TRUE
               ELSE IF Kind(t, i) = "unclear" THEN FALSE
               ELSE IF Kind(t, i) = "word" THEN Clear(t, i + Parts(t, i).len)
               ELSE Clear(t, i + 1)
FieldText(t, i) ==
  IF i >= Len(t) THEN <<>>
  ELSE IF Kind(t, i) = "word" THEN
       LET p == Parts(t, i) j == AfterGap(t, i + p.len)
       IN WordText(p) \o FieldText(t, IF Kind(t, j) = "word" THEN j ELSE i + p.len)
  ELSE IF Fold(t, i) > 0 THEN FieldText(t, i + Fold(t, i))
  ELSE <<B(t, i)>> \o FieldText(t, i + 1)

\* ---- fields ---------------------------------------------------------------------
\* end of the (folded) line that starts at i
LineEnd(t, i) == MinOfSet({k \in i..(Len(t) - 1) : Eol(t, k) > 0 /\ (k = i \/ Fold(t, k) = 0)}, Len(t))
RECURSIVE Lines(_, _)
Lines(t, i) == LET e == LineEnd(t, i) IN
               IF e = i \/ i >= Len(t) THEN <<>> ELSE <<SubSeq(t, i + 1, e)>> \o Lines(t, e + Eol(t, e))
\* the value of the last line with this name; <<-1>> if there is none
Named(l, n) == Len(l) > Len(n) /\ B(l, Len(n)) = 58 /\ \A k \in 1..Len(n) : Lower(l[k]) = n[k]
Raw(l, n) == LET s == MinOfSet({k \in (Len(n) + 1)..(Len(l) - 1) : ~Space(B(l, k))}, Len(l)) IN SubSeq(l, s + 1, Len(l))
FieldOf(ls, n) ==
  LET is == {k \in DOMAIN ls : Named(ls[k], n)} IN
  IF is = {} THEN <<>> ELSE Raw(ls[CHOOSE k \in is : \A j \in is : j <= k], n)
Names == [subject |-> <<115, 117, 98, 106, 101, 99, 116>>, from |-> <<102, 114, 111, 109>>, to |-> <<116, 111>>,
          cc |-> <<99, 99>>, bcc |-> <<98, 99, 99>>, messageid |-> <<109, 101, 115, 115, 97, 103, 101, 45, 105, 100>>,
          inreplyto |-> <<105, 110, 45, 114, 101, 112, 108, 121, 45, 116, 111>>,
          references |-> <<114, 101, 102, 101, 114, 101, 110, 99, 101, 115>>]
\* a header, an empty line and at least one byte, all lines ended alike
HasBody(t) == \E k \in 0..(Len(t) - 1) : Eol(t, k) > 0 /\ Eol(t, k + Eol(t, k)) > 0 /\ k + Eol(t, k) + Eol(t, k + Eol(t, k)) < Len(t)
CrOk(t) == \A k \in 0..(Len(t) - 1) : (B(t, k) = 13 => Eol(t, k) = 2)
Uniform(t) == CrOk(t) /\ ((\A k \in 0..(Len(t) - 1) : Eol(t, k) > 0 /\ B(t, k) = 10 => k > 0 /\ B(t, k - 1) = 13)
                          \/ (\A k \in 0..(Len(t) - 1) : B(t, k) # 13))
MailFails(e) ==
  IF ~HasBody(e.d) \/ ~Uniform(e.d) THEN {}
  ELSE LET ls == Lines(e.d, 0) IN
       UNION {LET v == FieldOf(ls, Names[n]) IN
              IF Clear(v, 0) /\ e[n] # FieldText(v, 0) THEN {"M2-field-text"} ELSE {} : n \in DOMAIN Names}
       \cup (IF e.st = 2 THEN {"M3-header-accepted"} ELSE {})
=============================================================================
