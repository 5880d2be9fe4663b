-------------------------------- MODULE Magic --------------------------------
(* Recognition of formats from the first bytes of a stream: what each header   *)
(* check has to answer for any sequence of bytes 0..255, however short.        *)
(* LET-bound offsets are 0-based as in the descriptions of the formats.         *)
EXTENDS Integers, Sequences, FiniteSets

At(t, i) == t[i + 1]
Starts(t, m, i) == i + Len(m) <= Len(t) /\ \A j \in 1..Len(m) : t[i + j] = m[j]

\* ---- magic numbers -----------------------------------------------------------
IsZip(t)  == Len(t) > 8 /\ Starts(t, <<80, 75, 3, 4>>, 0)
IsAr(t)   == Starts(t, <<33, 60, 97, 114, 99, 104, 62, 10>>, 0)
IsCpio(t) == Starts(t, <<48, 55, 48, 55, 48, 49>>, 0)
IsRpm(t)  == Starts(t, <<237, 171, 238, 219, 3, 0>>, 0)
IsOle(t)  == Len(t) > 8 /\ Starts(t, <<208, 207, 17, 224, 161, 177, 26, 225>>, 0)
IsGzip(t) == Len(t) > 2 /\ Starts(t, <<31, 139>>, 0)
\* a bzip2 stream starts with BZh, the level and the magic of a block or of the end
BzBody(t) == Starts(t, <<49, 65, 89, 38, 83, 89>>, 4) \/ Starts(t, <<23, 114, 69, 56, 80, 144>>, 4)
IsBz2(t)  == Starts(t, <<66, 90, 104>>, 0) /\ BzBody(t) /\ At(t, 3) \in 49..57
MayBz2(t) == Starts(t, <<66, 90>>, 0) /\ BzBody(t) /\ At(t, 2) \in {104, 48}

\* ---- lzma: properties, size of the dictionary, size of the content ---------------
\* little endian numbers as sequences of bytes; a < b
RECURSIVE LeLess(_, _)
LeLess(a, b) == IF a = <<>> THEN FALSE
                ELSE LET n == Len(a) IN
                     IF a[n] # b[n] THEN a[n] < b[n]
                     ELSE LeLess(SubSeq(a, 1, n - 1), SubSeq(b, 1, n - 1))
IsLzma(t) ==
  /\ Len(t) >= 13 /\ At(t, 0) = 93 /\ At(t, 1) = 0
  /\ LET dict == SubSeq(t, 2, 5)
         size == SubSeq(t, 6, 13)
         used == IF LeLess(dict, <<0, 16, 0, 0>>) THEN <<0, 16, 0, 0>> ELSE dict   \* at least 4 KiB
     IN /\ ~LeLess(<<0, 0, 0, 2>>, dict)                                            \* at most 32 MiB
        /\ \/ \A i \in 1..8 : size[i] = 255                                         \* not known
           \/ LeLess(used \o <<0, 0, 0, 0>>, size) /\ \A i \in 6..8 : size[i] = 0   \* below 1 TiB

\* ---- tar: a name padded with NUL, and fields that end in NUL or a space --------------
IsTar(t) ==
  /\ Len(t) >= 257
  /\ LET ends == {i \in 0..99 : At(t, i) = 0}
         e == IF ends = {} THEN 100 ELSE CHOOSE i \in ends : \A j \in ends : i <= j
     IN \A i \in e..99 : At(t, i) = 0
  /\ \E i \in 100..255 : At(t, i) # 0
  /\ \A i \in {107, 115, 123, 256} : At(t, i) = 0
  /\ \A i \in {135, 147} : At(t, i) \in {0, 32}

\* ---- sdf: the fourth of four lines of at most 80 bytes contains V2000 -----------------
Breaks(t, i) == {k \in i..(i + 80) : k < Len(t) /\ At(t, k) \in {10, 13}}
Break(t, i) == CHOOSE k \in Breaks(t, i) : \A j \in Breaks(t, i) : k <= j
\* start of the line after the one that starts at i; Len(t) if there is none
NextLine(t, i) ==
  IF i >= Len(t) \/ Breaks(t, i) = {} THEN Len(t)
  ELSE LET k == Break(t, i) IN
       IF At(t, k) = 13 /\ k + 1 < Len(t) /\ At(t, k + 1) = 10 THEN k + 2 ELSE k + 1
IsSdf(t) ==
  /\ Len(t) > 10
  /\ LET l4 == NextLine(t, NextLine(t, NextLine(t, 0)))
         l5 == NextLine(t, l4)
     IN l5 < Len(t) /\ \E i \in l4..(l5 - 5) : Starts(t, <<86, 50, 48, 48, 48>>, i)

\* ---- mail: header fields without white space in their names, in 7 bit text -----------------
Crlf(t, i) == {k \in i..(Len(t) - 2) : At(t, k) = 13 /\ At(t, k + 1) = 10}
AfterLine(t, i) == IF Crlf(t, i) = {} THEN Len(t) ELSE 2 + CHOOSE k \in Crlf(t, i) : \A j \in Crlf(t, i) : k <= j
Colon(t, i) == LET c == {k \in i..(Len(t) - 1) : At(t, k) = 58} IN
               IF c = {} THEN Len(t) ELSE CHOOSE k \in c : \A j \in c : k <= j
RECURSIVE Headers(_, _)
Headers(t, i) ==
  IF i >= Len(t) THEN TRUE
  ELSE IF i > 0 /\ At(t, i) \in {9, 32} THEN Headers(t, AfterLine(t, i + 1))
  ELSE IF i > 0 /\ At(t, i) = 13 THEN i + 1 = Len(t) \/ At(t, i + 1) = 10
  ELSE LET c == Colon(t, i) IN
       /\ \A k \in i..(c - 1) : At(t, k) \in 33..126
       /\ (c < Len(t) => Headers(t, AfterLine(t, c + 1)))
IsMail(t) == (\A k \in 1..Len(t) : t[k] < 128) /\ Headers(t, 0)

\* ---- which reader the first bytes of a stream select -----------------------------------------
Sniff(t) == IF t = <<>> THEN "none" ELSE IF IsMail(t) THEN "mail" ELSE IF IsZip(t) THEN "zip" ELSE IF IsSdf(t) THEN "sdf" ELSE "none"

\* ---- clauses -----------------------------------------------------------------------------------
Says(name, is, r) == IF (r = 1) # is THEN {"H3-recognises-" \o name} ELSE {}
MagicFails(e) ==
  LET t == e.d IN
       Says("zip", IsZip(t), e.zip) \cup Says("ar", IsAr(t), e.ar) \cup Says("cpio", IsCpio(t), e.cpio)
  \cup Says("rpm", IsRpm(t), e.rpm) \cup Says("ole", IsOle(t), e.ole) \cup Says("gzip", IsGzip(t), e.gzip)
  \cup Says("tar", IsTar(t), e.tar) \cup Says("sdf", IsSdf(t), e.sdf) \cup Says("mail", IsMail(t), e.mail)
  \cup Says("lzma", IsLzma(t), e.lzma)
  \cup (IF (IsBz2(t) /\ e.bz2 # 1) \/ (~MayBz2(t) /\ e.bz2 # 0) THEN {"H3-recognises-bz2"} ELSE {})
  \cup (IF e.fmt # "" /\ e.whole = 1 /\ e[e.fmt] # 1 THEN {"H4-own-format"} ELSE {})
\* t: what follows the position of the stream. At least its first 1024 bytes are looked at.
SniffFails(e) ==
  LET short == SubSeq(e.d, 1, IF Len(e.d) < 1024 THEN Len(e.d) ELSE 1024) IN
       (IF e.kind \notin {Sniff(short), Sniff(e.d)} THEN {"H5-selects-reader"} ELSE {})
  \cup (IF e.kind = "none" /\ (e.pos # e.p0 \/ e.st = 2) THEN {"H6-stays-in-place"} ELSE {})
  \cup (IF e.kind # "none" /\ e.st = 2 THEN {"H6-stays-in-place"} ELSE {})
=============================================================================
