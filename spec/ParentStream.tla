---------------------------- MODULE ParentStream ----------------------------
(* A parent (source) stream as the filters see it: each operator gives the  *)
(* set of all outcomes the contract allows.  A parent is a record            *)
(*  L, end ("clean"|"error": fails when more than L items are asked for),    *)
(*  pos, st, size, lo, hi (segment it can certainly be rewound into),        *)
(*  any (TRUE: it can be repositioned anywhere)                               *)
EXTENDS StreamContract

Parents(lens, ends, anys) ==
  {[L |-> n, end |-> x, pos |-> 0, st |-> Ok, size |-> z, lo |-> 0, hi |-> 0, any |-> g] :
     n \in lens, x \in ends, z \in {-1} \cup lens, g \in anys}
GoodParents(lens, ends, anys) ==
  {p \in Parents(lens, ends, anys) : p.size = -1 \/ (p.size = p.L /\ p.end = "clean")}

PFail(p) == [p EXCEPT !.st = Err, !.lo = p.pos, !.hi = p.pos]

PRead(p, min, max) ==
  LET left == p.L - p.pos
      top == IF max < min THEN left ELSE Min2(max, left)
      adv(n, s) == [p EXCEPT !.pos = @ + n, !.lo = p.pos, !.hi = p.pos + n, !.st = s,
                             !.size = IF s = Eof THEN p.L ELSE @]
  IN IF p.st = Err THEN {[n |-> -2, off |-> -1, p |-> p]}
     ELSE IF left = 0
     THEN IF p.end = "clean" THEN {[n |-> -1, off |-> -1, p |-> [p EXCEPT !.st = Eof, !.size = p.L, !.lo = p.pos, !.hi = p.pos]]}
          ELSE {[n |-> -2, off |-> -1, p |-> PFail(p)]}
     ELSE   {[n |-> n, off |-> p.pos, p |-> adv(n, Ok)] : n \in {m \in 1..top : m >= min}}
       \cup (IF p.end = "clean" /\ top = left
             THEN {[n |-> left, off |-> p.pos, p |-> adv(left, Eof)]} ELSE {})
       \cup (IF p.end = "error" /\ left < min THEN {[n |-> -2, off |-> -1, p |-> PFail(p)]} ELSE {})

PSkip(p, k) ==
  LET left == p.L - p.pos
      to(n, s) == [p EXCEPT !.pos = @ + n, !.lo = p.pos + n, !.hi = p.pos + n, !.st = s, !.size = IF s = Eof THEN p.L ELSE @]
  IN IF p.st = Err THEN {[r |-> -2, p |-> p]}
     ELSE IF k = 0 THEN {[r |-> 0, p |-> p]}
     ELSE (IF k <= left THEN {[r |-> k, p |-> to(k, Ok)]} ELSE {})
       \cup (IF p.end = "clean" /\ k >= left THEN {[r |-> left, p |-> to(left, Eof)]} ELSE {})
       \cup (IF p.end = "clean" /\ left = 0 THEN {[r |-> -1, p |-> to(0, Eof)]} ELSE {})
       \cup (IF p.end = "error" /\ k > left THEN {[r |-> -2, p |-> PFail(p)]} ELSE {})

PReset(p, q) ==
  IF p.st = Err THEN {[r |-> -2, p |-> p]}
  ELSE IF p.lo <= q /\ q <= p.hi
       THEN {[r |-> q, p |-> [p EXCEPT !.pos = q, !.st = Ok]]}
            \cup (IF q = p.L /\ p.size = p.L THEN {[r |-> q, p |-> [p EXCEPT !.pos = q, !.st = Eof]]} ELSE {})
  ELSE (IF p.any /\ q >= 0 /\ q <= p.L
        THEN {[r |-> q, p |-> [p EXCEPT !.pos = q, !.st = Ok, !.lo = q, !.hi = q]]} ELSE {})
       \cup (IF ~p.any THEN {[r |-> p.pos, p |-> p]} ELSE {})
       \cup (IF p.any /\ q > p.L THEN {[r |-> p.pos, p |-> p]} ELSE {})

Streams0 == [c |-> <<>>, kind |-> "", decl |-> -1, o0 |-> -1, tl |-> 0, clen |-> -1, rew |-> 0, pos |-> 0, size |-> -1, st |-> Ok]
=============================================================================
