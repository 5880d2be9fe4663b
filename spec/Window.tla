------------------------------- MODULE Window -------------------------------
(* The algorithm of a window of a parent stream (SubInputStream): each        *)
(* operator gives the set of all outcomes of one public call.                  *)
(* w: o0 (position of the parent at the start), size (-1: not limited),        *)
(*    pos, st; p: the parent.  An outcome: e (the observed call), w, p.        *)
EXTENDS ParentStream, TLC

WOut(e, w, p) == {[w |-> w, p |-> p,
                   e |-> e @@ [pos |-> w.pos, size |-> w.size, st |-> w.st, err |-> IF w.st = Err THEN 1 ELSE 0,
                               pp |-> p.pos, ps |-> p.st]]}
WNew(p, size) == [o0 |-> p.pos, size |-> size, pos |-> 0, st |-> Ok]

WRead(w, p, min, max) ==
  LET left == w.size - w.pos
      mn == IF w.size # -1 /\ min > left THEN left ELSE min
      mx == IF w.size # -1 /\ (max < mn \/ max > left) THEN left ELSE max
      ev(n, off) == [ev |-> "read", min |-> min, max |-> max, n |-> n, off |-> off]
      to(s) == [w EXCEPT !.st = s]
  IN IF w.st = Err THEN WOut(ev(-2, -1), w, p)
     ELSE IF w.st = Eof \/ (w.size # -1 /\ left = 0) THEN WOut(ev(-1, -1), to(Eof), p)
     ELSE UNION {LET off == IF o.n > 0 THEN o.off - w.o0 ELSE -1 IN
                 IF o.n < -1 THEN WOut(ev(o.n, -1), to(Err), o.p)
                 ELSE IF o.n < mn
                 THEN IF w.size = -1
                      THEN WOut(ev(o.n, off), [w EXCEPT !.pos = @ + Max2(o.n, 0), !.size = w.pos + Max2(o.n, 0), !.st = Eof], o.p)
                      ELSE WOut(ev(-2, -1), to(Err), o.p)
                 ELSE WOut(ev(o.n, off), [w EXCEPT !.pos = @ + o.n, !.st = IF w.pos + o.n = w.size THEN Eof ELSE @], o.p)
                 : o \in PRead(p, mn, mx)}

WSkip(w, p, k) ==
  LET ev(r) == [ev |-> "skip", k |-> k, r |-> r]
      kk == IF w.size # -1 /\ k > w.size - w.pos THEN w.size - w.pos ELSE k
      to(s) == [w EXCEPT !.st = s]
  IN IF w.st = Err THEN WOut(ev(-2), w, p)
     ELSE IF w.size = w.pos THEN WOut(ev(-1), to(Eof), p)
     ELSE IF k = 0 THEN WOut(ev(0), w, p)
     ELSE UNION {IF o.p.st = Err THEN WOut(ev(o.r), to(Err), o.p)
                 ELSE LET pos == w.pos + Max2(o.r, 0)
                          size == IF w.size = -1 /\ o.r < kk THEN pos ELSE w.size
                          x == [w EXCEPT !.pos = pos, !.size = size]
                      IN IF pos = size THEN WOut(ev(o.r), [x EXCEPT !.st = Eof], o.p)
                         ELSE IF o.r < kk THEN WOut(ev(-2), [x EXCEPT !.st = Err], o.p)
                         ELSE WOut(ev(o.r), x, o.p)
                 : o \in PSkip(p, kk)}

WReset(w, p, q) ==
  LET ev(r) == [ev |-> "reset", p |-> q, r |-> r]
      np == IF w.size # -1 /\ q > w.size THEN w.size ELSE q
  IN IF w.st = Err THEN WOut(ev(-2), w, p)
     ELSE UNION {IF o.p.st = Err \/ o.r < w.o0 \/ (w.size # -1 /\ o.r > w.o0 + w.size)
                 THEN WOut(ev(-2), [w EXCEPT !.st = Err], o.p)
                 ELSE LET pos == o.r - w.o0
                      IN WOut(ev(pos), [w EXCEPT !.pos = pos, !.st = IF pos = w.size THEN Eof ELSE Ok], o.p)
                 : o \in PReset(p, np + w.o0)}
=============================================================================
