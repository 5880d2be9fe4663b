---------------------------- MODULE ProviderIter ----------------------------
(* The algorithm that the archive iterators share, over an abstract format:   *)
(* members with a header of H items, their data, and padding to an even       *)
(* length, then Trail items that announce the end.  Whatever the consumer did *)
(* with the current entry, the next call of nextEntry() skips the rest of it  *)
(* and the padding and reads the next header.                                 *)
(* Checked for every archive, every cut, failing and ending sources, every    *)
(* outcome that the contract of the source allows, and every history of       *)
(* calls, against ProviderContract (nextEntry) and StreamContract (entries).  *)
(*   Design = "good"     as the library does it                               *)
(*            "nopad"    does not skip the padding                            *)
(*            "noerror"  does not look at the outcome of skipping the entry   *)
(*            "norest"   skips the whole length from wherever the entry is    *)
(*            "clean"    takes an incomplete header for the end               *)
EXTENDS Window, ProviderContract, Json
CONSTANTS MaxMembers, DataLens, Trails, Flts, Cuts, Anys, MaxMin, MaxMax, Skips, Resets, MaxOps, Design, PrintTests
VARIABLES p, w, cur, it, k, P, S, bad, hist
vars == <<p, w, cur, it, k, P, S, bad, hist>>
View == <<p, w, cur, it, k, P, S, bad>>

H == 2
NoEntry == [o0 |-> 0, size |-> 0, pos |-> 0, st |-> Ok]
Mem(d) == [name |-> "", sz |-> d, mt |-> -1, mth |-> 0, ty |-> -1, len |-> d, dl |-> d, nl |-> H, vis |-> 1, dfl |-> 0]
RECURSIVE Sum(_)
Sum(ds) == IF ds = <<>> THEN 0 ELSE H + Up(Head(ds), 2) + Sum(Tail(ds))
Model(ds, tr, cut, flt) ==
  [fmt |-> "abs", ms |-> [i \in 1..Len(ds) |-> Mem(ds[i])], trail |-> tr, total |-> Sum(ds) + tr, cut |-> cut, flt |-> flt, end |-> "clean"]
SeqsUpTo(T, n) == UNION {[1..m -> T] : m \in 0..n}

\* an input that is there up to the cut
Input(cut, flt, any, known) ==
  [L |-> cut, end |-> IF flt = 1 THEN "error" ELSE "clean", pos |-> 0, st |-> Ok, size |-> IF known THEN cut ELSE -1, lo |-> 0, hi |-> 0, any |-> any]
AnyS == [x \in {} |-> 0]

Init == \E ds \in SeqsUpTo(DataLens, MaxMembers), tr \in Trails, flt \in Flts, any \in Anys, known \in BOOLEAN :
        \E cut \in (IF Cuts THEN 0 ELSE Sum(ds) + tr)..(Sum(ds) + tr) :
          /\ known => flt = 0
          /\ flt = 1 => cut < Sum(ds) + tr
          /\ p = Input(cut, flt, any, known)
          /\ P = NewProvider([m |-> Model(ds, tr, cut, flt), st |-> Ok])
          /\ w = NoEntry /\ cur = FALSE /\ it = Ok /\ k = 0 /\ S = AnyS /\ bad = {} /\ hist = <<>>

Op(o) == /\ Len(hist) < MaxOps /\ hist' = Append(hist, o)
\* ---- nextEntry ------------------------------------------------------------------
NextEvent(ret, q, x, st) ==
  [ev |-> "next", ret |-> ret, cur |-> ret, name |-> "x", sz |-> IF ret = 1 THEN x.size ELSE 0, mt |-> -1, mth |-> 0, ty |-> -1,
   epos |-> 0, esize |-> IF ret = 1 THEN x.size ELSE 0, est |-> IF ret = 1 THEN x.st ELSE Ok, eerr |-> 0,
   st |-> st, err |-> IF st = Err THEN 1 ELSE 0]
Answer(ret, q, x, st) ==
  LET e == NextEvent(ret, q, x, st) IN
  /\ bad' = NextFails(P, e) /\ P' = NextProvider(P, e)
  /\ S' = IF ret = 1 THEN EntryStream(P, e) ELSE AnyS
  /\ p' = q /\ it' = st /\ cur' = (ret = 1) /\ w' = IF ret = 1 THEN x ELSE NoEntry
  /\ k' = IF ret = 1 THEN k + 1 ELSE k

\* the header of member k + 1, or the mark of the end
ParseHeader(q) ==
  IF k = Len(P.m.ms) /\ P.m.trail > 0
  THEN \E o \in PRead(q, 1, 1) :
         IF o.n = 1 \/ o.n = -1 THEN Answer(0, o.p, NoEntry, Eof)
         ELSE Answer(0, o.p, NoEntry, Err)
  ELSE \E o \in PRead(q, H, H) :
         IF o.n = -1 THEN Answer(0, o.p, NoEntry, Eof)
         ELSE IF o.n < H THEN Answer(0, o.p, NoEntry, IF Design = "clean" /\ o.n > 0 THEN Eof ELSE Err)
         ELSE \* in an abstract archive the next header is member k + 1, if the input is where that starts
              IF k < Len(P.m.ms) /\ o.off = P.lay[k + 1].h
              THEN Answer(1, o.p, WNew(o.p, P.m.ms[k + 1].dl), Ok)
              ELSE Answer(0, o.p, NoEntry, Err)      \* something that is not a header

Pad(x) == IF Design = "nopad" THEN 0 ELSE Up(x.size, 2) - x.size
AfterEntry(q, x) ==
  \E o \in PSkip(q, Pad(x)) :
     IF o.p.st = Err THEN Answer(0, o.p, NoEntry, Err) ELSE ParseHeader(o.p)
NextEntry ==
  /\ Op(<<"n">>)
  /\ IF it # Ok THEN Answer(0, p, NoEntry, it)
     ELSE IF ~cur THEN ParseHeader(p)
     ELSE IF Design = "norest"
     THEN \E o \in PSkip(p, w.size) : IF o.p.st = Err THEN Answer(0, o.p, NoEntry, Err) ELSE AfterEntry(o.p, w)
     ELSE \E o \in WSkip(w, p, w.size) :
            IF Design # "noerror" /\ o.w.pos # o.w.size THEN Answer(0, o.p, NoEntry, Err)
            ELSE AfterEntry(o.p, o.w)

\* ---- calls on the current entry -------------------------------------------------------
Entry(outs) ==
  \E x \in outs :
    /\ bad' = CallFails(S, x.e) /\ S' = CallNext(S, x.e) /\ w' = x.w /\ p' = x.p
    /\ UNCHANGED <<P, it, k, cur>>
EntryCall == /\ cur
             /\ \/ \E min \in 1..MaxMin, max \in 0..MaxMax : Op(<<"r", min, max>>) /\ Entry(WRead(w, p, min, max))
                \/ \E n \in Skips : Op(<<"k", n>>) /\ Entry(WSkip(w, p, n))
                \/ \E q \in Resets : Op(<<"z", q>>) /\ Entry(WReset(w, p, q))
Step == NextEntry \/ EntryCall
Report == (PrintTests /\ it = Ok /\ it' # Ok) => PrintT(<<"TEST", ToJson([ds |-> [i \in DOMAIN P.m.ms |-> P.m.ms[i].dl], tr |-> P.m.trail, cut |-> P.m.cut,
                                               total |-> P.m.total, flt |-> P.m.flt, any |-> p.any, ops |-> hist'])>>)
Next == Step /\ Report
Spec == Init /\ [][Next]_vars

ContractHolds == bad = {}
\* the entry is always a window of its own data, and the input is never beyond it
OwnData == (cur /\ w.st # Err) => /\ w.o0 = P.lay[k].d /\ w.size = P.m.ms[k].dl
                                  /\ p.pos = w.o0 + w.pos /\ p.pos <= P.lay[k].e
\* what was announced as the end is the end
EndIsTrue == it = Eof => \/ k = Len(P.m.ms)
                         \/ ~Whole(P) /\ ~CutInside(P)
Final == [][it # Ok => it' = it]_vars
=============================================================================
