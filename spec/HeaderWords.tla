------------------------------ MODULE HeaderWords ------------------------------
(* The scanner that turns the raw value of a header field into text: one pass,   *)
(* where p marks what is not yet copied, checked against the declarative FieldText *)
(* of MailText for every sequence of a few pieces.                                *)
EXTENDS MailText, TLC, Json, SequencesExt
CONSTANTS Pieces, MaxPieces, PrintTests
VARIABLES v, s, p, out
vars == <<v, s, p, out>>

Texts == {FlattenSeq(f) : f \in UNION {[1..n -> Pieces] : n \in 0..MaxPieces}}
\* a field value neither starts nor ends with white space that would be stripped or end the line
Fits(t) == t = <<>> \/ (~Space(t[1]) /\ (\A k \in 0..(Len(t) - 1) : Eol(t, k) > 0 => Fold(t, k) > 0 \/ (k > 0 /\ Eol(t, k - 1) = 2)))
Init == /\ v \in {t \in Texts : Fits(t)} /\ s = 0 /\ p = 0 /\ out = <<>>
        /\ (PrintTests => PrintT(<<"TEST", ToJson([t |-> v])>>))

Copied(i) == out \o SubSeq(v, p + 1, i)
Here(i) == i < Len(v) /\ Kind(v, i) = "word"
RECURSIVE SkipSpace(_)
SkipSpace(i) == IF i < Len(v) /\ Space(B(v, i)) THEN SkipSpace(i + 1) ELSE i
Word == /\ s < Len(v) /\ Here(s)
        /\ LET w == Parts(v, s) e == s + w.len n == SkipSpace(e)
           IN /\ out' = Copied(s) \o WordText(w)
              /\ s' = (IF Here(n) THEN n ELSE e) /\ p' = s'
        /\ v' = v
Unfold == /\ s < Len(v) /\ ~Here(s) /\ Fold(v, s) > 0
          /\ out' = Copied(s) /\ s' = s + Fold(v, s) /\ p' = s' /\ v' = v
Plain == /\ s < Len(v) /\ ~Here(s) /\ Fold(v, s) = 0
         /\ s' = s + 1 /\ UNCHANGED <<v, p, out>>
Next == Word \/ Unfold \/ Plain
Spec == Init /\ [][Next]_vars
\* when the scan is at the end, the copied part and the rest are the text
Correct == (s >= Len(v) /\ Clear(v, 0)) => Copied(Len(v)) = FieldText(v, 0)
\* what was copied never changes
Prefix == Clear(v, 0) => LET f == FieldText(v, 0) IN Len(out) <= Len(f) /\ SubSeq(f, 1, Len(out)) = out

\* =?utf-8?q?   =C3=A9   ?=   =?iso-8859-1?b?4Q==?=   space   CR LF space   a   =   ?
WQ == <<61, 63, 117, 116, 102, 45, 56, 63, 113, 63>>
WX == <<61, 63, 117, 116, 102, 45, 56, 63, 120, 63>>
WB == <<61, 63, 105, 115, 111, 45, 56, 56, 53, 57, 45, 49, 63, 66, 63, 52, 81, 61, 61, 63, 61>>
PiecesC == {WQ, <<61, 67, 51, 61, 65, 57>>, <<63, 61>>, WB, <<32>>, <<13, 10, 32>>, <<97>>}
PiecesW == PiecesC \cup {WX, <<61>>, <<63>>, <<95>>, <<10, 9>>}
=============================================================================
