--------------------------- MODULE BufferedStream ---------------------------
(* The buffered stream template as implemented: a window of items kept in a *)
(* growing memory block, refilled by an arbitrary source.  One action per    *)
(* critical step: the start of a call, one refill, the end of a call.        *)
(* Checked: every completed call satisfies StreamContract.                   *)
EXTENDS StreamContract, TLC

CONSTANTS Len0,        \* number of items the source has
          InitBuf,     \* initial buffer size
          Declared,    \* TRUE: the subclass declares the size up front
          FaultAt,     \* the source fails once this many items were produced; -1: never
          MaxMin, MaxMax, MaxSkip

VARIABLES mem,         \* memory block: sequence of item numbers (0: never written)
          rp, avail,   \* readPos (0-based index), available items
          fin,         \* finishedWritingToBuffer
          src,         \* items produced by the source so far
          pos, size, st, err,
          op,          \* call in progress
          ptr,         \* memory index of the last returned segment, or -1
          ps,          \* contract state of the stream
          bad          \* contract clauses violated by the call that just ended

vars == <<mem, rp, avail, fin, src, pos, size, st, err, op, ptr, ps, bad>>

NoFault == -1
Idle == [name |-> "idle"]
Item(i) == i            \* item number i (1-based) of the content is simply i

Init == /\ mem = [i \in 1..InitBuf |-> 0] /\ rp = 0 /\ avail = 0 /\ fin = FALSE /\ src = 0
        /\ pos = 0 /\ size = (IF Declared THEN Len0 ELSE -1) /\ st = Ok /\ err = 0
        /\ op = Idle /\ ptr = -1 /\ bad = {}
        /\ ps = NewStream([L |-> Len0, end |-> IF FaultAt >= 0 THEN "error" ELSE "clean",
                           c |-> <<>>, kind |-> "buf", decl |-> IF Declared THEN Len0 ELSE -1,
                           o0 |-> -1, tl |-> 0, clen |-> -1, rew |-> 0,
                           pos |-> 0, size |-> IF Declared THEN Len0 ELSE -1, st |-> Ok])

\* ---- StreamBuffer::makeSpace: the new memory, read position and space ------------
MakeSpace(needed) ==
  LET sz == Len(mem) space == sz - rp - avail IN
  IF space >= needed THEN [mem |-> mem, rp |-> rp, space |-> space]
  ELSE LET moved == IF avail > 0
                    THEN [i \in 1..sz |-> IF i <= avail THEN mem[rp + i] ELSE mem[i]]
                    ELSE mem
           sp2 == IF avail > 0 THEN space + rp ELSE sz
       IN IF sp2 >= needed THEN [mem |-> moved, rp |-> 0, space |-> sp2]
          ELSE IF sz > needed - sp2
               THEN [mem |-> moved \o [i \in 1..sz |-> 0], rp |-> 0, space |-> sp2 + sz]
               ELSE [mem |-> moved \o [i \in 1..(needed - sp2) |-> 0], rp |-> 0, space |-> needed]

\* ---- the end of a call: bookkeeping of the contract -------------------------------
Complete(e) == /\ bad' = CallFails(ps, e)
               /\ ps' = CallNext(ps, e)
               /\ op' = Idle

\* buffer.read and the end-of-stream logic (the tail of read())
Deliver(min, max) ==
  LET mx == IF max <= 0 \/ max > avail THEN avail ELSE max
      p2 == pos + mx
      tooLong == p2 > size /\ size > 0
      eof == ~tooLong /\ st = Ok /\ avail - mx = 0 /\ fin
      n == IF tooLong THEN -2 ELSE IF eof /\ mx = 0 THEN -1 ELSE mx
      sz2 == IF eof /\ size = -1 THEN p2 ELSE size
      st2 == IF tooLong THEN Err ELSE IF eof THEN Eof ELSE st
      content == \A i \in 1..mx : mem[rp + i] = Item(pos + i)
  IN [n |-> n, rp |-> rp + mx, avail |-> avail - mx, pos |-> p2, size |-> sz2, st |-> st2,
      err |-> IF tooLong THEN 1 ELSE err, off |-> IF content THEN pos ELSE -1, ptr |-> IF n > 0 THEN rp ELSE -1]

\* ---- read -----------------------------------------------------------------------
NMax(min, max) == IF min > max THEN 0 ELSE max

ReadStart(min, max) ==
  /\ op = Idle
  /\ LET mx == NMax(min, max) IN
     IF st # Ok
     THEN LET e == [ev |-> "read", min |-> min, max |-> max, n |-> IF st = Err THEN -2 ELSE -1, off |-> -1,
                    pos |-> pos, size |-> size, st |-> st, err |-> err]
          IN Complete(e) /\ UNCHANGED <<mem, rp, avail, fin, src, pos, size, st, err, ptr>>
     ELSE IF ~fin /\ min > avail
          THEN op' = [name |-> "fill", min |-> min, max |-> mx, omax |-> max, k |-> -1, done |-> 0]
               /\ UNCHANGED <<mem, rp, avail, fin, src, pos, size, st, err, ptr, ps>> /\ bad' = {}
          ELSE LET d == Deliver(min, mx)
                   e == [ev |-> "read", min |-> min, max |-> max, n |-> d.n, off |-> d.off,
                         pos |-> d.pos, size |-> d.size, st |-> d.st, err |-> d.err]
               IN /\ rp' = d.rp /\ avail' = d.avail /\ pos' = d.pos /\ size' = d.size /\ st' = d.st /\ err' = d.err
                  /\ ptr' = d.ptr /\ Complete(e) /\ UNCHANGED <<mem, fin, src>>

\* one iteration of writeToBuffer with a refill of m items
Refill ==
  /\ op.name = "fill" /\ ~fin /\ st = Ok /\ avail < op.min
  /\ LET ms == MakeSpace(op.min - avail)
         space == IF op.max >= op.min /\ ms.space > op.max THEN op.max ELSE ms.space
         left == IF FaultAt >= 0 THEN FaultAt - src ELSE Len0 - src
     IN IF left = 0
        THEN /\ fin' = TRUE /\ mem' = ms.mem /\ rp' = ms.rp
             /\ IF FaultAt >= 0 THEN st' = Err /\ err' = 1 ELSE UNCHANGED <<st, err>>
             /\ UNCHANGED <<avail, src, pos, size, op, ptr, ps, bad>>
        ELSE \E m \in 1..Min2(space, left) :
             /\ mem' = [i \in 1..Len(ms.mem) |-> IF i > ms.rp + avail /\ i <= ms.rp + avail + m
                                                 THEN Item(src + i - ms.rp - avail) ELSE ms.mem[i]]
             /\ rp' = ms.rp /\ avail' = avail + m /\ src' = src + m
             /\ UNCHANGED <<fin, pos, size, st, err, op, ptr, ps, bad>>

FillDone ==
  /\ op.name = "fill" /\ (fin \/ st # Ok \/ avail >= op.min)
  /\ IF st = Err
     THEN LET e == [ev |-> IF op.k < 0 THEN "read" ELSE "skip", min |-> op.min, max |-> op.omax, n |-> -2, off |-> -1,
                    k |-> op.k, r |-> op.done, pos |-> pos, size |-> size, st |-> st, err |-> err]
          IN Complete(e) /\ ptr' = -1 /\ UNCHANGED <<mem, rp, avail, fin, src, pos, size, st, err>>
     ELSE LET d == Deliver(op.min, op.max) IN
          /\ rp' = d.rp /\ avail' = d.avail /\ pos' = d.pos /\ size' = d.size /\ st' = d.st /\ err' = d.err
          /\ UNCHANGED <<mem, fin, src>>
          /\ IF op.k < 0
             THEN ptr' = d.ptr /\ Complete([ev |-> "read", min |-> op.min, max |-> op.omax, n |-> d.n, off |-> d.off,
                                            pos |-> d.pos, size |-> d.size, st |-> d.st, err |-> d.err])
             ELSE IF d.n <= 0 \/ op.done + d.n = op.k
                  THEN ptr' = -1 /\ Complete([ev |-> "skip", k |-> op.k, r |-> op.done + Max2(d.n, 0),
                                              pos |-> d.pos, size |-> d.size, st |-> d.st, err |-> d.err])
                  ELSE /\ op' = [op EXCEPT !.done = @ + d.n, !.name = "skip"]
                       /\ ptr' = -1 /\ UNCHANGED <<ps, bad>>

\* ---- skip: a loop of reads of at most one buffer ------------------------------------
SkipStart(k) ==
  /\ op = Idle
  /\ IF k = 0
     THEN Complete([ev |-> "skip", k |-> 0, r |-> 0, pos |-> pos, size |-> size, st |-> st, err |-> err])
          /\ UNCHANGED <<mem, rp, avail, fin, src, pos, size, st, err, ptr>>
     ELSE op' = [name |-> "skip", min |-> 1, max |-> 0, omax |-> 0, k |-> k, done |-> 0]
          /\ bad' = {} /\ UNCHANGED <<mem, rp, avail, fin, src, pos, size, st, err, ptr, ps>>

SkipStep ==
  /\ op.name = "skip"
  /\ LET step == Min2(Len(mem), op.k - op.done) IN
     IF st # Ok
     THEN Complete([ev |-> "skip", k |-> op.k, r |-> op.done, pos |-> pos, size |-> size, st |-> st, err |-> err])
          /\ ptr' = -1 /\ UNCHANGED <<mem, rp, avail, fin, src, pos, size, st, err>>
     ELSE op' = [op EXCEPT !.name = "fill", !.max = NMax(1, step)]
          /\ UNCHANGED <<mem, rp, avail, fin, src, pos, size, st, err, ptr, ps, bad>>

\* ---- reset ---------------------------------------------------------------------------
Reset(p) ==
  /\ op = Idle
  /\ LET d == pos - p
         inbuf == st # Err /\ rp >= d /\ 0 - d <= avail
         e0 == [ev |-> "reset", p |-> p, r |-> IF st = Err THEN -2 ELSE IF inbuf THEN p ELSE pos,
                pos |-> IF inbuf THEN p ELSE pos, size |-> size,
                st |-> IF inbuf THEN Ok ELSE st, err |-> err]
         inwin == ptr >= 0 /\ ps.lo <= p /\ p <= ps.hi
         valid == \A i \in 1..(ps.hi - ps.lo) : mem[ptr + i] = Item(ps.lo + i)
         e == IF inwin THEN [po |-> IF valid THEN 1 ELSE 0] @@ e0 ELSE e0
     IN /\ Complete(e)
        /\ pos' = e.pos /\ st' = e.st
        /\ IF inbuf THEN avail' = avail + d /\ rp' = rp - d ELSE UNCHANGED <<avail, rp>>
        /\ ptr' = IF inwin /\ inbuf THEN ptr ELSE -1
        /\ UNCHANGED <<mem, fin, src, size, err>>

Next == \/ \E min \in 1..MaxMin, max \in 0..MaxMax : ReadStart(min, max)
        \/ Refill \/ FillDone
        \/ \E k \in 0..MaxSkip : SkipStart(k)
        \/ SkipStep
        \/ \E p \in 0..(Len0 + 1) : Reset(p)

Spec == Init /\ [][Next]_vars

ContractHolds == bad = {}
TypeOK == /\ rp >= 0 /\ avail >= 0 /\ rp + avail <= Len(mem) /\ pos >= 0 /\ pos <= Len0
          /\ st \in {Ok, Eof, Err} /\ src <= Len0
\* everything produced and not yet released is in the buffer, in order
BufferTrue == (op = Idle /\ st # Err) =>
              /\ src = pos + avail
              /\ \A i \in 1..avail : mem[rp + i] = Item(pos + i)
\* the buffer never grows beyond what was asked for (used to bound memory)
Bounded == Len(mem) <= 4 * (Len0 + MaxMin + 1)
=============================================================================
