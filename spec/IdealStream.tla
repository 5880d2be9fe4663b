---------------------------- MODULE IdealStream ----------------------------
(* The most general stream that honours the contract: every call may give  *)
(* any outcome the contract allows.  It serves three purposes:              *)
(*  - sanity of the contract: the ideal stream never violates it, and the   *)
(*    contract implies the invariants below;                                *)
(*  - it is the model of a parent stream used by the filter models;          *)
(*  - test generation: one history per transition of its state graph.       *)
EXTENDS StreamContract, TLC, Json

CONSTANTS Lens, MaxMin, MaxMax, MaxSkip, EndKinds, PrintTests

VARIABLES L, end, pos, size, st, lo, hi, hist, bad

vars == <<L, end, pos, size, st, lo, hi, hist, bad>>
View == <<L, end, pos, size, st, lo, hi, bad>>

Known == size # -1
State == [L |-> L, end |-> end, c |-> <<>>, kind |-> "ideal", decl |-> -1, o0 |-> -1, tl |-> 0, clen |-> -1,
          rew |-> 0, pos |-> pos, size |-> size, st |-> st, lo |-> lo, hi |-> hi, dl |-> 0, de |-> 0, hw |-> 0]

Init == /\ L \in Lens /\ end \in EndKinds /\ pos = 0 /\ st = Ok
        /\ size \in {-1} \cup (IF end = "clean" THEN {L} ELSE {})
        /\ lo = 0 /\ hi = 0 /\ hist = <<>> /\ bad = {}

Step(op, e) ==
  LET s == State t == CallNext(s, e) IN
  /\ bad' = CallFails(s, e)
  /\ pos' = e.pos /\ st' = e.st /\ size' = e.size /\ lo' = t.lo /\ hi' = t.hi
  /\ hist' = Append(hist, op)
  /\ UNCHANGED <<L, end>>
  /\ IF PrintTests THEN PrintT(<<"TEST", ToJson([L |-> L, end |-> end, ops |-> Append(hist, op)])>>) ELSE TRUE

Read(min, max) ==
  LET left == L - pos
      top == IF max < min THEN left ELSE Min2(max, left)
      ev(n, p, sz, s) == [ev |-> "read", min |-> min, max |-> max, n |-> n, off |-> pos, pos |-> p, size |-> sz, st |-> s,
                          err |-> IF s = Err THEN 1 ELSE 0]
      op == <<"r", min, max>>
  IN \/ /\ st = Err /\ Step(op, ev(-2, pos, size, Err))
     \/ /\ st # Err /\ end = "clean" /\ left = 0 /\ Step(op, ev(-1, pos, L, Eof))
     \/ /\ st # Err /\ left > 0
        /\ \E n \in Min2(min, top)..top :
             /\ n >= 1 /\ (n >= min \/ end = "clean")
             /\ \/ n >= min /\ Step(op, ev(n, pos + n, size, Ok))
                \/ end = "clean" /\ pos + n = L /\ Step(op, ev(n, L, L, Eof))
     \/ /\ st # Err /\ end = "error" /\ left < min /\ Step(op, ev(-2, pos, size, Err))

Skip(k) ==
  LET left == L - pos
      ev(r, p, sz, s) == [ev |-> "skip", k |-> k, r |-> r, pos |-> p, size |-> sz, st |-> s, err |-> IF s = Err THEN 1 ELSE 0]
      op == <<"k", k>>
  IN
     /\ \/ st = Err /\ Step(op, ev(-2, pos, size, Err))
        \/ st # Err /\ k = 0 /\ Step(op, ev(0, pos, size, st))
        \/ st # Err /\ k > 0 /\ k <= left /\ Step(op, ev(k, pos + k, size, Ok))
        \/ st # Err /\ end = "clean" /\ k > 0 /\ k >= left /\ Step(op, ev(left, L, L, Eof))
        \/ st # Err /\ end = "error" /\ k > left /\ Step(op, ev(-2, pos, size, Err))

Reset(p) ==
  LET ev(r, q, s) == [ev |-> "reset", p |-> p, r |-> r, pos |-> q, size |-> size, st |-> s, err |-> IF s = Err THEN 1 ELSE 0]
      op == <<"z", p>>
      eofOK == end = "clean" /\ size = L
  IN
     /\ \/ st = Err /\ Step(op, ev(-2, pos, Err))
        \/ st # Err /\ p <= L /\ Step(op, ev(p, p, Ok))
        \/ st # Err /\ p <= L /\ p = L /\ eofOK /\ Step(op, ev(p, p, Eof))
        \/ st # Err /\ ~(lo <= p /\ p <= hi) /\ Step(op, ev(pos, pos, st))   \* cannot: stays where it is

Next == \/ \E min \in 1..MaxMin, max \in 0..MaxMax : Read(min, max)
        \/ \E k \in 0..MaxSkip : Skip(k)
        \/ \E p \in 0..(L + 1) : Reset(p)
Spec == Init /\ [][Next]_vars

\* ---- the contract admits the ideal stream ...
ContractHolds == bad = {}
\* ---- ... and implies the global guarantees
TypeOK == pos \in 0..L /\ lo <= hi /\ st \in {Ok, Eof, Err}
EofOnlyAtEnd == st = Eof => (pos = L /\ size = L /\ end = "clean")
SizeNeverWrong == size \in {-1, L}
ErrorAbsorbing == [][st = Err => st' = Err]_vars
SizeStable == [][size # -1 => size' = size]_vars
=============================================================================
