----------------------------- MODULE EventStream -----------------------------
(* A stream that tells a listener what passes (DataEventInputStream), over    *)
(* every parent the contract allows.  skip() may be a loop of reads: one       *)
(* action per read.                                                            *)
EXTENDS ParentStream, TLC
CONSTANTS Lens, Stops, MaxMin, Maxs, MaxSkip, Anys
VARIABLES p, stop, msize, mpos, mst, total, fin,    \* DataEventInputStream
          dl, dok, de, dx, ds,                       \* the listener
          op, ps, bad
vars == <<p, stop, msize, mpos, mst, total, fin, dl, dok, de, dx, ds, op, ps, bad>>
Idle == [name |-> "idle"]

Init == \E par \in GoodParents(Lens, {"clean", "error"}, Anys) :
          /\ p = par /\ stop \in Stops /\ msize = par.size /\ mpos = 0 /\ mst = Ok /\ total = 0 /\ fin = FALSE
          /\ dl = 0 /\ dok = 1 /\ de = 0 /\ dx = 0 /\ ds = 0 /\ op = Idle /\ bad = {}
          /\ ps = NewStream([Streams0 EXCEPT !.kind = "event", !.size = par.size] @@ [L |-> par.L, end |-> par.end])

\* state after one read of the stream: the record carries every variable
Cur == [p |-> p, msize |-> msize, mpos |-> mpos, mst |-> mst, total |-> total, fin |-> fin,
        dl |-> dl, dok |-> dok, de |-> de, dx |-> dx, ds |-> ds, n |-> 0, off |-> -1]

Deliver(r, from, to) ==      \* handleData over the items from+1..to
  LET late == IF r.ds = 1 \/ r.de > 0 \/ from = to THEN 1 ELSE 0
      st == stop >= 0 /\ r.dl + (to - from) >= stop
  IN [r EXCEPT !.dok = IF from = r.dl THEN r.dok ELSE 0, !.dl = @ + (to - from), !.dx = @ + late,
               !.ds = IF st THEN 1 ELSE 0, !.total = IF st THEN -1 ELSE to]
End(r) == IF r.fin THEN r ELSE [r EXCEPT !.fin = TRUE, !.de = @ + 1]

ReadOut(r, min, max) ==
  {LET pos0 == r.mpos
       n == IF o.n > 0 /\ r.msize # -1 /\ pos0 + o.n > r.msize THEN r.msize - pos0 ELSE o.n
       r1 == [r EXCEPT !.p = o.p]
   IN IF o.n < -1 THEN [r1 EXCEPT !.mst = Err, !.n = -2, !.off = -1]
      ELSE LET pos == pos0 + Max2(n, 0)
               r2 == [r1 EXCEPT !.mpos = pos, !.n = n, !.off = IF n > 0 THEN o.off ELSE -1]
               r3 == IF n > 0 /\ r.total # -1 /\ r.total < pos THEN Deliver(r2, r.total, pos) ELSE r2
           IN IF n < min THEN End([r3 EXCEPT !.mst = Eof, !.msize = IF @ = -1 THEN pos ELSE @]) ELSE r3
   : o \in PRead(r.p, min, max)}

Set(r) == /\ p' = r.p /\ msize' = r.msize /\ mpos' = r.mpos /\ mst' = r.mst /\ total' = r.total /\ fin' = r.fin
          /\ dl' = r.dl /\ dok' = r.dok /\ de' = r.de /\ dx' = r.dx /\ ds' = r.ds /\ UNCHANGED stop
Finish(r, e) ==
  LET f == e @@ [pos |-> r.mpos, size |-> r.msize, st |-> r.mst, err |-> IF r.mst = Err THEN 1 ELSE 0,
                 dl |-> r.dl, dok |-> r.dok, de |-> r.de, dx |-> r.dx, ds |-> r.ds]
  IN bad' = CallFails(ps, f) /\ ps' = CallNext(ps, f) /\ op' = Idle /\ Set(r)

Read(min, max) == op = Idle /\ \E r \in ReadOut(Cur, min, max) :
   Finish(r, [ev |-> "read", min |-> min, max |-> max, n |-> r.n, off |-> r.off])

\* skip(): fast when nothing is reported any more, otherwise a loop of reads
SkipEv(r, k, ret) == [ev |-> "skip", k |-> k, r |-> ret]
FastSkip(r, k) == {[s |-> [r EXCEPT !.p = o.p, !.mst = o.p.st, !.mpos = o.p.pos, !.msize = IF @ = -1 THEN o.p.size ELSE @], ret |-> o.r] : o \in PSkip(r.p, k)}

Skip(k) ==
  /\ op = Idle
  /\ IF total = -1 THEN \E x \in FastSkip(Cur, k) : Finish(x.s, SkipEv(x.s, k, x.ret))
     ELSE IF k = 0 THEN Finish(Cur, SkipEv(Cur, 0, 0))
     ELSE op' = [name |-> "skip", k |-> k, left |-> k, q |-> -1] /\ bad' = {}
          /\ UNCHANGED <<p, stop, msize, mpos, mst, total, fin, dl, dok, de, dx, ds, ps>>

Ret(r, ret) == IF op.q < 0 THEN Finish(r, SkipEv(r, op.k, ret))
               ELSE Finish(r, [ev |-> "reset", p |-> op.q, r |-> IF r.mst = Err /\ FALSE THEN -2 ELSE r.mpos])
SkipStep ==
  /\ op.name = "skip"
  /\ \E r \in ReadOut(Cur, 1, op.left) :
       IF r.n < -1 THEN Ret(r, r.n)
       ELSE IF r.n < 1 THEN Ret(r, op.k - op.left)
       ELSE IF r.n = op.left THEN Ret(r, op.k)
       ELSE op' = [op EXCEPT !.left = @ - r.n] /\ bad' = {} /\ Set(r) /\ UNCHANGED ps

Reset(q) ==
  /\ op = Idle
  /\ IF q > mpos /\ total # -1 /\ q > total
     THEN op' = [name |-> "skip", k |-> q - mpos, left |-> q - mpos, q |-> q] /\ bad' = {}
          /\ UNCHANGED <<p, stop, msize, mpos, mst, total, fin, dl, dok, de, dx, ds, ps>>
     ELSE \E o \in PReset(p, q) :
          LET r == [Cur EXCEPT !.p = o.p, !.mpos = o.r, !.mst = IF o.r < 0 THEN Err ELSE IF o.r = msize THEN Eof ELSE Ok]
          IN IF r.mst = Ok /\ o.r < q
             THEN IF total = -1
                  THEN \E x \in FastSkip(r, q - o.r) : Finish(x.s, [ev |-> "reset", p |-> q, r |-> x.s.mpos])
                  ELSE op' = [name |-> "skip", k |-> q - o.r, left |-> q - o.r, q |-> q] /\ bad' = {} /\ Set(r) /\ UNCHANGED ps
             ELSE Finish(r, [ev |-> "reset", p |-> q, r |-> r.mpos])

Next == \/ \E min \in 1..MaxMin, max \in Maxs : Read(min, max)
        \/ \E k \in 0..MaxSkip : Skip(k)
        \/ SkipStep
        \/ \E q \in 0..MaxSkip : Reset(q)
Spec == Init /\ [][Next]_vars
ContractHolds == bad = {}
ListenerPrefix == dok = 1 /\ dx = 0 /\ de <= 1 /\ dl <= p.L
EverythingSeen == (op = Idle /\ ds = 0 /\ mst # Err) => dl >= mpos
StopsC == {-1, 0, 1, 2}
=============================================================================
