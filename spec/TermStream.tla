----------------------------- MODULE TermStream -----------------------------
(* A sub-stream that ends before the first terminator                        *)
(* (StringTerminatedSubStream), one action per public call, over every        *)
(* parent the contract allows and every small content.                        *)
EXTENDS ParentStream, TLC
CONSTANTS Contents, Terms, MaxMin, Maxs, MaxReset, Anys
VARIABLES c, t, p, o0, fur, msize, mpos, mst, ps, bad
vars == <<c, t, p, o0, fur, msize, mpos, mst, ps, bad>>

Occurs(s, q, i) == i + Len(q) <= Len(s) /\ SubSeq(s, i + 1, i + Len(q)) = q      \* at offset i
FirstIn(s, q) == IF \E i \in 0..Len(s) : Occurs(s, q, i)
                 THEN CHOOSE i \in 0..Len(s) : Occurs(s, q, i) /\ \A j \in 0..(i - 1) : ~Occurs(s, q, j)
                 ELSE -1
Rest(s, o) == SubSeq(s, o + 1, Len(s))

Init == /\ c \in Contents /\ t \in Terms /\ fur = 0 /\ msize = -1 /\ mpos = 0 /\ mst = Ok /\ bad = {}
        /\ \E o \in {0, 1}, x \in {"clean"}, g \in Anys, kn \in BOOLEAN :
           /\ o <= Len(c) /\ o0 = o
           /\ p = [L |-> Len(c), end |-> x, pos |-> o, st |-> Ok, size |-> IF kn THEN Len(c) ELSE -1, lo |-> 0, hi |-> o, any |-> g]
           /\ LET i == FirstIn(Rest(c, o), t) IN
              ps = NewStream([Streams0 EXCEPT !.kind = "term", !.o0 = o, !.tl = IF i < 0 THEN 0 ELSE Len(t)]
                              @@ [L |-> IF i < 0 THEN Len(c) - o ELSE i, end |-> "clean"])

Complete(e) == bad' = CallFails(ps, e) /\ ps' = CallNext(ps, e)
Post(e, q, f, pos, size, st) ==
  Complete(e @@ [pos |-> pos, size |-> size, st |-> st, err |-> IF st = Err THEN 1 ELSE 0, pp |-> q.pos, ps |-> q.st])
  /\ p' = q /\ fur' = f /\ mpos' = pos /\ msize' = size /\ mst' = st /\ UNCHANGED <<c, t, o0>>

Read(min, max0) ==
  LET ev(n, off) == [ev |-> "read", min |-> min, max |-> max0, n |-> n, off |-> off]
      max == IF max0 < min THEN 0 ELSE max0
      ahead == fur - p.pos
      tl == Len(t)
      tlmin == min + tl
      tlmax == IF max > 0 /\ max < tlmin THEN tlmin ELSE max
  IN IF mst = Eof THEN Post(ev(-1, -1), p, fur, mpos, msize, Eof)
     ELSE IF mst = Err THEN Post(ev(-2, -1), p, fur, mpos, msize, Err)
     ELSE IF min <= ahead
     THEN \E o \in PRead(p, min, IF max <= 0 \/ max > ahead THEN ahead ELSE max) :
            IF o.n < -1 THEN Post(ev(o.n, -1), o.p, fur, mpos, msize, Err)
            ELSE Post(ev(o.n, IF o.n > 0 THEN o.off - o0 ELSE -1), o.p, fur, mpos + Max2(o.n, 0), msize, mst)
     ELSE \E o \in PRead(p, tlmin, tlmax) :
            IF o.n = -1 THEN Post(ev(-1, -1), o.p, fur, mpos, mpos, Eof)
            ELSE IF o.n < -1 THEN Post(ev(o.n, -1), o.p, fur, mpos, msize, Err)
            ELSE LET seg == SubSeq(c, p.pos + 1, p.pos + o.n)
                     i == FirstIn(seg, t)
                     off == o.off - o0
                     out(n, q, f, st) == LET pos == mpos + n IN
                        Post(ev(IF st = Eof /\ n = 0 THEN -1 ELSE n, IF n > 0 THEN off ELSE -1), q, f, pos,
                             IF st = Eof THEN pos ELSE msize, st)
                 IN IF i >= 0
                    THEN \E z \in PReset(o.p, p.pos + i + tl) : out(i, z.p, fur, Eof)
                    ELSE IF o.n >= tlmin
                    THEN \E z \in PReset(o.p, p.pos + o.n - tl) : out(o.n - tl, z.p, p.pos + o.n - tl, mst)
                    ELSE IF max # 0 /\ o.n > max
                    THEN \E z \in PReset(o.p, p.pos + max) : out(max, z.p, p.pos + o.n, mst)
                    ELSE out(o.n, o.p, fur, Eof)

Reset(q) ==
  LET ev(r) == [ev |-> "reset", p |-> q, r |-> r]
      limit == IF msize # -1 THEN msize ELSE Max2(mpos, fur - o0)
      np == IF q > limit THEN limit ELSE q
  IN IF mst = Err THEN Post(ev(-2), p, fur, mpos, msize, Err)
     ELSE \E o \in PReset(p, np + o0) :
          IF o.r < o0 THEN Post(ev(-2), o.p, fur, mpos, msize, Err)
          ELSE IF msize # -1 /\ o.r > o0 + msize THEN Post(ev(msize), o.p, fur, msize, msize, Eof)
          ELSE Post(ev(o.r - o0), o.p, fur, o.r - o0, msize, Ok)

Next == \/ \E min \in 1..MaxMin, max \in Maxs : Read(min, max)
        \/ \E q \in 0..MaxReset : Reset(q)
Spec == Init /\ [][Next]_vars
ContractHolds == bad = {}
ParentInStep == (mst = Ok) => p.pos = o0 + mpos
ContentsC == UNION {[1..n -> {1, 2}] : n \in 0..5}
ContentsS == UNION {[1..n -> {1, 2}] : n \in 0..4}
TermsC == {<<1>>, <<1, 2>>, <<1, 1>>, <<1, 2, 1>>}
=============================================================================
