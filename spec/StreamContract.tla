--------------------------- MODULE StreamContract ---------------------------
(***************************************************************************)
(* The observable contract of every stream of the library.                 *)
(*                                                                         *)
(* A stream is described by a record                                       *)
(*   L     number of items of its content                                  *)
(*   end   "clean": the content ends regularly                             *)
(*         "error": the source fails or is incomplete, so the stream may   *)
(*                  deliver any prefix of the L items and must then fail   *)
(*         "any"  : outcome not determined (arbitrary input)               *)
(*         "maybe": the stream delivers a prefix of the L items and then    *)
(*                  fails, or all of them and then ends                     *)
(*   c     the content itself if it is small enough to be logged, or <<>>  *)
(*   decl  a size that is declared in advance, or -1                       *)
(*   pos, size, st      the projected state (st: 0 Ok, 1 Eof, 2 Error)     *)
(*   lo, hi             the segment that can certainly be rewound into     *)
(* and, where they apply, o0/tl/clen/kind (position of the parent) and     *)
(* dl/de/hw (what a listener has received).                                *)
(*                                                                         *)
(* Every operator XFails(s, e) gives the set of names of the clauses that  *)
(* the observed call e violates in state s; XNext(s, e) is the successor   *)
(* state. The design models (BufferedStream, SubStream, ...) are checked   *)
(* against these operators by TLC, and so are the traces recorded from the *)
(* implementation (TraceStream).                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Has(e, f) == f \in DOMAIN e
When(cond, lbl) == IF cond THEN {lbl} ELSE {}     \* violated clause

Ok == 0
Eof == 1
Err == 2

\* ---- clauses on the state after any call --------------------------------
PostFails(s, e) ==
       When(e.st = Eof /\ s.end # "any" /\ (e.pos # s.L \/ s.end = "error"), "P1-eof-only-at-end")
  \cup When(e.st = Eof /\ (e.size # e.pos), "P1-size-known-at-eof")
  \cup When(e.size # -1 /\ s.end = "clean" /\ e.size # s.L, "P2-size-true")
  \cup When(s.size # -1 /\ e.size # s.size, "P2-size-stable")
  \cup When(s.decl >= 0 /\ s.end = "clean" /\ e.size \notin {-1, s.decl}, "P2-size-declared")
  \cup When(e.st = Err /\ e.err # 1, "P3-error-message")
  \cup When(e.st # Err /\ (e.pos < 0 \/ (s.end # "any" /\ e.pos > s.L)), "P4-pos-range")
  \cup When(e.st = Err /\ s.end = "clean", "P5-clean-never-errors")

\* ---- read(min, max) with min >= 1 -----------------------------------------
ReadFails(s, e) ==
  LET n == e.n IN
       When(s.st = Err /\ (n # -2 \/ e.st # Err), "E1-error-sticky")
  \cup When(n > 0 /\ e.pos # s.pos + n, "R1-pos-advances")
  \cup When(n > 0 /\ s.end # "any" /\ e.off # s.pos, "R1-content")
  \cup When(n > 0 /\ s.end # "any" /\ s.pos + n > s.L, "R1-bounds")
  \cup When(n > 0 /\ s.end # "any" /\ s.c # <<>> /\ Has(e, "d") /\ s.pos >= 0 /\ s.pos + n <= s.L
            /\ e.d # SubSeq(s.c, s.pos + 1, s.pos + n), "R1-bytes")
  \cup When(e.max >= e.min /\ n > e.max, "R2-max")
  \cup When(n > 0 /\ n < e.min /\ e.st # Err /\ s.end # "any"
            /\ ~(s.end # "error" /\ e.pos = s.L), "R3-min")
  \cup When(n = -1 /\ (e.st # Eof \/ e.pos # s.pos \/ (s.end # "any" /\ s.pos # s.L) \/ s.end = "error"), "R4-eof-return")
  \cup When(n = 0, "R5-never-zero")
  \cup When(n < -1 /\ (n # -2 \/ e.st # Err), "R6-error-return")
  \cup When(n < -1 /\ s.end = "clean", "R6-clean-never-fails")

\* ---- skip(k), k >= 0 ----------------------------------------------------------
SkipFails(s, e) ==
  LET r == e.r IN
       When(s.st = Err /\ e.st # Err, "E1-error-sticky")
  \cup When(s.st = Err /\ r > 0, "E1-error-sticky")
  \cup When(r >= 0 /\ e.st # Err /\ e.pos # s.pos + r, "S1-pos-advances")
  \cup When(r > e.k, "S1-at-most-k")
  \cup When(r >= 0 /\ r < e.k /\ e.st # Err /\ ~(s.end # "error" /\ (e.pos = s.L \/ s.end = "any")), "S2-short-only-at-end")
  \cup When(r < 0 /\ e.st # Err /\ ~(r = -1 /\ e.pos = s.pos /\ (s.pos = s.L \/ s.end = "any")), "S3-negative-return")
  \cup When(e.k = 0 /\ s.st # Err /\ (e.pos # s.pos \/ e.st = Err), "S0-zero-noop")

\* ---- reset(p), p >= 0 ---------------------------------------------------------
ResetFails(s, e) ==
  LET inwin == s.st # Err /\ s.lo <= e.p /\ e.p <= s.hi IN
       When(inwin /\ (e.r # e.p \/ e.pos # e.p), "Z1-window")
  \cup When(s.rew = 1 /\ s.st # Err /\ e.p <= s.L /\ e.pos # e.p, "Z1-rewindable")
  \cup When(Has(e, "po") /\ e.po # 1, "Z4-pointer")
  \cup When(e.st # Err /\ e.r # e.pos, "Z2-returns-position")
  \cup When(e.r < 0 /\ e.st # Err, "Z5-failure-is-error")
  \cup When(s.st = Err /\ e.st = Ok /\ s.end # "any" /\ e.pos > s.L, "P4-pos-range")

\* ---- position of the parent stream --------------------------------------------
\* sub : a window of the parent that starts at o0
\* term: ends before a terminator of tl items (tl = 0: it does not occur)
\* z   : compressed data of clen bytes that starts at o0
ParentFails(s, e) ==
  IF ~Has(e, "pp") \/ e.st = Err \/ s.o0 < 0 \/ s.end = "any" THEN {}
  ELSE When(s.kind = "sub" /\ e.pp # s.o0 + e.pos, "W1-parent-position")
  \cup When(s.kind = "term" /\ e.st = Ok /\ e.pos < s.L /\ e.pp # s.o0 + e.pos, "W1-parent-position")
  \cup When(s.kind = "term" /\ e.st = Eof /\ e.pp # s.o0 + s.L + s.tl, "T1-parent-after-terminator")
  \cup When(s.kind = "z" /\ s.clen >= 0 /\ e.st = Eof /\ e.pp # s.o0 + s.clen, "G1-parent-after-compressed")

\* ---- listener -----------------------------------------------------------------
ListenFails(s, e) ==
  IF ~Has(e, "dl") THEN {}
  ELSE LET hw == Max2(s.hw, e.pos) IN
       When(e.dok # 1, "D1-prefix-in-order")
  \cup When(e.dl < s.dl, "D2-monotone")
  \cup When(e.ds = 0 /\ e.st # Err /\ e.dl < hw, "D3-covers-consumed")
  \cup When(e.dl > s.L, "D1-prefix-in-order")
  \cup When(e.de > 1 \/ e.de < s.de, "D5-one-end")
  \cup When(e.de = 1 /\ s.end = "error", "D6-no-end-on-error")
  \cup When(e.de = 1 /\ e.ds = 0 /\ e.dl # s.L, "D7-complete-before-end")
  \cup When(e.ev = "read" /\ e.st = Eof /\ e.n < e.min /\ e.de # 1, "D8-end-notified")
  \cup When(e.dx # 0, "D9-no-late-or-empty-event")

\* a consumer that runs into the end is not served in the state it had: it has
\* nothing pending and can only reposition
CallFails(s, e) ==
  (CASE e.ev = "read"  -> ReadFails(s, e)
     [] e.ev = "skip"  -> SkipFails(s, e)
     [] e.ev = "reset" -> ResetFails(s, e)
     [] OTHER -> {})
  \cup PostFails(s, e) \cup ParentFails(s, e) \cup ListenFails(s, e)

CallNext(s, e) ==
  LET t == [s EXCEPT !.pos = e.pos, !.st = e.st,
                     !.size = IF e.size # -1 THEN e.size ELSE s.size,
                     !.hw = Max2(s.hw, e.pos),
                     !.dl = IF Has(e, "dl") THEN e.dl ELSE s.dl,
                     !.de = IF Has(e, "dl") THEN e.de ELSE s.de]
  IN CASE e.ev = "read"  -> IF e.n > 0 THEN [t EXCEPT !.lo = s.pos, !.hi = s.pos + e.n]
                                       ELSE [t EXCEPT !.lo = e.pos, !.hi = e.pos]
       [] e.ev = "skip"  -> [t EXCEPT !.lo = e.pos, !.hi = e.pos]
       [] e.ev = "reset" -> IF s.lo <= e.pos /\ e.pos <= s.hi /\ e.pos = e.p
                            THEN t ELSE [t EXCEPT !.lo = e.pos, !.hi = e.pos]
       [] OTHER -> t

\* ---- creation --------------------------------------------------------------------
NewFails(e) ==
       When(e.end = "clean" /\ e.st = Err, "P5-clean-never-errors")
  \cup When(e.st = Err /\ e.err # 1, "P3-error-message")
  \cup When(e.st # Err /\ e.pos # 0, "N1-starts-at-0")
  \cup When(e.st = Eof /\ (e.end = "error" \/ (e.end \in {"clean", "maybe"} /\ e.L # 0)), "P1-eof-only-at-end")
  \cup When(e.st = Eof /\ e.size # 0, "P1-size-known-at-eof")
  \cup When(e.end = "clean" /\ e.size \notin {-1, e.L}, "P2-size-true")
  \cup When(e.end = "rejected" /\ e.st # Err, "N2-rejected-at-construction")
NewStream(e) ==
  [L |-> e.L, end |-> IF e.end = "rejected" THEN "error" ELSE e.end, c |-> e.c, kind |-> e.kind, decl |-> e.decl,
   o0 |-> e.o0, tl |-> e.tl, clen |-> e.clen, rew |-> e.rew,
   pos |-> e.pos, size |-> e.size, st |-> e.st, lo |-> e.pos, hi |-> e.pos,
   dl |-> 0, de |-> 0, hw |-> 0]
=============================================================================
