-------------------------- MODULE ProviderContract --------------------------
(***************************************************************************)
(* The contract of the archive iterators (SubStreamProvider).              *)
(*                                                                         *)
(* An archive is described by a record m                                   *)
(*   fmt    the format; for tar, zip, ar and cpio the byte layout is       *)
(*          specified here, every other format is opaque                   *)
(*   ms     its members, in order: name, sz (size), mt/mth (modification   *)
(*          time modulo 10^9, divided by 10^9), ty (type; -1: any, -2: not *)
(*          a directory), len (length of the content), dl (length of the   *)
(*          content as stored) and                                         *)
(*          per format: ll, kl (tar: long name and link), nl, xl, dd (zip: *)
(*          name, extra field, data descriptor), nl (cpio), vis = 0 for a  *)
(*          member that is not an entry (tables of ar, "./" of tar)        *)
(*   trail  number of bytes after the last member                          *)
(*   total  number of bytes of the archive                                 *)
(*   cut    number of bytes that are there                                 *)
(*   flt    1 if the source fails after these instead of ending            *)
(*   end    for opaque formats the required outcome: clean, error, any     *)
(***************************************************************************)
EXTENDS StreamContract, TLC

Up(n, k) == ((n + k - 1) \div k) * k

Pre(m) == IF m.fmt = "ar" THEN 8 ELSE 0
LongLen(n) == IF n = 0 THEN 0 ELSE 512 + Up(n, 512)
HdrLen(fmt, x) ==
  CASE fmt = "tar"  -> 512 + LongLen(x.ll) + LongLen(x.kl)
    [] fmt = "zip"  -> 30 + x.nl + x.xl
    [] fmt = "ar"   -> 60
    [] fmt = "cpio" -> Up(110 + x.nl, 4)
    [] fmt = "abs"  -> x.nl                 \* abstract format of ProviderIter
TailLen(fmt, x) ==
  CASE fmt = "tar"  -> Up(x.dl, 512) - x.dl
    [] fmt = "zip"  -> x.dd
    [] fmt = "ar"   -> x.dl % 2
    [] fmt = "cpio" -> Up(x.dl, 4) - x.dl
    [] fmt = "abs"  -> Up(x.dl, 2) - x.dl
Known(m) == m.fmt \in {"tar", "zip", "ar", "cpio", "abs"}

\* <<[h, d, e, t], ...>>: start of the header, of the data, of the tail and end of each member
RECURSIVE LayoutFrom(_, _, _)
LayoutFrom(m, i, off) ==
  IF i > Len(m.ms) THEN <<>>
  ELSE LET x == m.ms[i]
           d == off + HdrLen(m.fmt, x)
           e == d + x.dl
           t == e + TailLen(m.fmt, x)
       IN <<[h |-> off, d |-> d, e |-> e, t |-> t]>> \o LayoutFrom(m, i + 1, t)
Layout(m) == LayoutFrom(m, 1, Pre(m))
Visible(m) == SelectSeq([i \in 1..Len(m.ms) |-> i], LAMBDA i : m.ms[i].vis = 1)

LayoutOk(m) ==
  IF ~Known(m) THEN TRUE
  ELSE LET lay == Layout(m) IN
       m.total = (IF lay = <<>> THEN Pre(m) ELSE lay[Len(lay)].t) + m.trail

\* provider state: k entries returned, done after nothing was returned
NewProvider(e) ==
  LET m == e.m
      lay == IF Known(m) THEN Layout(m) ELSE <<>>
  IN [m |-> m, lay |-> lay, vis |-> Visible(m), k |-> 0, done |-> 0, st |-> e.st]

Whole(p) == p.m.cut >= p.m.total /\ p.m.flt = 0
\* member i is entirely in the data that is there
HeaderThere(p, i) == IF Known(p.m) THEN p.lay[i].d <= p.m.cut ELSE TRUE
DataThere(p, i) == IF Known(p.m) THEN p.lay[i].e <= p.m.cut ELSE Whole(p)
\* the cut lies strictly inside a member: in its header or in its data
CutInside(p) ==
  IF Known(p.m) THEN (\E i \in DOMAIN p.lay : p.lay[i].h < p.m.cut /\ p.m.cut < p.lay[i].e)
                     \/ p.m.cut < Pre(p.m)
  ELSE p.m.end = "error"
\* entries that have to be returned
Must(p) == IF p.m.flt = 1 THEN 0
           ELSE IF Whole(p) /\ p.m.end # "any" THEN Len(p.vis)
           ELSE IF ~Known(p.m) THEN 0
           ELSE Cardinality({j \in DOMAIN p.vis : DataThere(p, p.vis[j])})
\* the stream of entry j
EntryEnd(p, j) ==
  LET i == p.vis[j] IN
  IF ~Known(p.m) THEN (IF Whole(p) THEN "clean" ELSE "maybe")
  ELSE IF DataThere(p, i) THEN (IF p.m.flt = 1 THEN "maybe" ELSE "clean")
  \* compressed data may be cut after the part that its content needs
  ELSE IF p.m.ms[i].dfl = 1 THEN "maybe" ELSE "error"
EntryLen(p, j) ==
  LET i == p.vis[j] x == p.m.ms[i] IN
  IF Known(p.m) /\ ~DataThere(p, i) /\ x.dfl = 0 THEN Max2(0, p.m.cut - p.lay[i].d) ELSE x.len

\* ---- the call nextEntry() ---------------------------------------------------
\* e: ret, cur, name, sz, mt, mth, ty, epos, esize, est, eerr, st, err
NextFails(p, e) ==
  LET j == p.k + 1
      x == p.m.ms[p.vis[j]]
      there == j <= Len(p.vis)
  IN
       When(p.done = 1 /\ (e.ret = 1 \/ e.st # p.st), "N4-end-is-final")
  \cup When(e.ret = 1 /\ (~there \/ (there /\ ~HeaderThere(p, p.vis[j]))), "N1-extra-entry")
  \cup When(e.ret = 1 /\ there /\ x.name # "" /\ e.name # x.name, "N1-name")
  \cup When(e.ret = 1 /\ e.name = "", "N1-name")
  \cup When(e.ret = 1 /\ there /\ x.sz # -2 /\ e.sz # x.sz, "N1-size")
  \cup When(e.ret = 1 /\ there /\ x.mt # -1 /\ <<e.mt, e.mth>> # <<x.mt, x.mth>>, "N1-mtime")
  \cup When(e.ret = 1 /\ there /\ CASE x.ty = -1 -> FALSE [] x.ty = -2 -> e.ty % 2 = 1 [] OTHER -> e.ty # x.ty, "N1-type")
  \cup When(e.ret = 1 /\ e.cur # 1, "N2-current-entry")
  \cup When(e.ret = 1 /\ e.epos # 0 /\ e.est # Err, "N3-entry-starts-at-0")
  \cup When(e.ret = 1 /\ e.est = Err /\ there /\ EntryEnd(p, j) = "clean", "N3-entry-not-failed")
  \cup When(e.ret = 1 /\ e.st = Err, "N8-status")
  \cup When(e.ret = 1 /\ there /\ e.est # Err /\ EntryEnd(p, j) = "clean" /\ e.esize \notin {-1, x.len}, "P2-size-true")
  \cup When(e.ret = 0 /\ p.done = 0 /\ p.k < Must(p), "N5-missing-entry")
  \cup When(e.ret = 0 /\ p.done = 0 /\ Whole(p) /\ p.m.end = "clean" /\ e.st # Eof, "N6-clean-end")
  \cup When(e.ret = 0 /\ e.st # Err /\ ~Whole(p) /\ p.m.flt = 0 /\ CutInside(p), "N7-truncation-noticed")
  \cup When(e.ret = 0 /\ e.st # Err /\ Whole(p) /\ p.m.end = "error", "N7-damage-noticed")
  \cup When(e.ret = 0 /\ e.st # Err /\ p.m.flt = 1 /\ p.k < Len(p.vis), "N7-failure-noticed")
  \cup When(e.ret = 0 /\ e.st = Ok, "N8-status")
  \cup When(e.st = Err /\ e.err # 1, "N8-message")

NextProvider(p, e) ==
  IF e.ret = 1 THEN [p EXCEPT !.k = @ + 1, !.st = e.st]
  ELSE [p EXCEPT !.done = 1, !.st = e.st]

EntryStream(p, e) ==
  LET j == Min2(p.k + 1, Len(p.vis))
      none == j = 0        \* an entry of an archive without members
  IN
  [L |-> IF none THEN 0 ELSE EntryLen(p, j), end |-> IF none THEN "maybe" ELSE EntryEnd(p, j), c |-> <<>>, kind |-> "entry", decl |-> -1,
   o0 |-> -1, tl |-> 0, clen |-> -1, rew |-> 0,
   pos |-> e.epos, size |-> e.esize, st |-> e.est, lo |-> e.epos, hi |-> e.epos, dl |-> 0, de |-> 0, hw |-> 0]

\* an arbitrary input, iterated to the end
WalkFails(e) ==
       When(e.bad > 0, "W2-entry-position")
  \cup When(e.lim = 1, "W3-unbounded-output")
  \cup When(e.lim = 0 /\ e.st = Ok, "W4-final-status")
  \cup When(e.st = Err /\ e.err # 1, "N8-message")
=============================================================================
