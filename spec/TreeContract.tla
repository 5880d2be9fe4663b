---------------------------- MODULE TreeContract ----------------------------
(***************************************************************************)
(* The contract of ArchiveReader: archives as directories.                 *)
(*                                                                         *)
(* An archive is the sequence of its members, in the order in which it     *)
(* stores them:                                                            *)
(*   p    path in the archive, a sequence of names                         *)
(*   ty   0 link, 1 directory, 2 file sz  size                             *)
(*   mt, mth  modification time modulo and divided by 10^9, mt = -1: any   *)
(*   c    identifies the content                                           *)
(*   sub  the members of the member, if that is an archive itself          *)
(*   late 1 if it is a directory that follows a member that is in it       *)
(*   wild 1 if it is an archive of which the end is damaged: sub has the   *)
(*        members that come before the damage, and there may be others     *)
(* A file system maps paths to such records (without p and late).          *)
(***************************************************************************)
EXTENDS StreamContract

IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Drop(s, n) == SubSeq(s, n + 1, Len(s))
\* the type with the archive flag; 4: it is a file, and may be an archive
Both(m) == IF m.sub # <<>> THEN m.ty + 1 ELSE IF m.wild = 1 THEN 4 ELSE m.ty
IsFile(ty) == ty \in {2, 3, 4}
\* whether what is at a path, or below it, depends on a damaged archive
RECURSIVE Wild(_, _, _, _)
Wild(A, w, path, below) ==
  w = 1 \/ \E i \in DOMAIN A : /\ A[i].sub # <<>> \/ A[i].wild = 1
                               /\ IsPre(A[i].p, path) /\ (below \/ A[i].p # path)
                               /\ Wild(A[i].sub, A[i].wild, Drop(path, Len(A[i].p)), below)

\* the entry with name x below path; a directory without member of its own has only its name
Entry(A, path, x) ==
  LET own == {i \in DOMAIN A : A[i].p = Append(path, x)} IN
  IF own = {} THEN [name |-> x, ty |-> 1, sz |-> -2, mt |-> -1, mth |-> 0, c |-> -1]
  ELSE LET m == A[CHOOSE i \in own : TRUE] IN
       [name |-> x, ty |-> Both(m), sz |-> IF m.ty = 1 THEN -2 ELSE m.sz,
        mt |-> IF m.late = 1 THEN -1 ELSE m.mt, mth |-> m.mth, c |-> m.c]

\* the direct children of a path in an archive
RECURSIVE Kids(_, _)
Kids(A, path) ==
  LET arc == {i \in DOMAIN A : A[i].sub # <<>> /\ IsPre(A[i].p, path)} IN
  IF arc # {} THEN LET i == CHOOSE i \in arc : TRUE IN Kids(A[i].sub, Drop(path, Len(A[i].p)))
  ELSE {Entry(A, path, A[i].p[Len(path) + 1]) : i \in {j \in DOMAIN A : Len(A[j].p) > Len(path) /\ IsPre(path, A[j].p)}}

None == [name |-> "", ty |-> -1, sz |-> 0, mt |-> 0, mth |-> 0, c |-> -1]
\* the entry at a path in an archive, or None
Find(A, path) ==
  LET k == {x \in Kids(A, SubSeq(path, 1, Len(path) - 1)) : x.name = path[Len(path)]} IN
  IF k = {} THEN None ELSE CHOOSE x \in k : TRUE

\* ---- file systems ----------------------------------------------------------
\* W: file system by opener; os: the openers in the order in which they are asked
NoFile == [ty |-> -1, sz |-> 0, mt |-> 0, mth |-> 0, c |-> -1, sub |-> <<>>, wild |-> 0]
RECURSIVE Phys(_, _, _)
Phys(W, os, url) ==
  IF os = <<>> THEN NoFile
  ELSE IF os[1] \in DOMAIN W /\ url \in DOMAIN W[os[1]] THEN W[os[1]][url]
  ELSE Phys(W, Tail(os), url)
\* the longest part of the path that is a plain file: <<length, file>>
RECURSIVE Root(_, _, _, _)
Root(W, os, url, n) ==
  IF n = 0 THEN <<0, NoFile>>
  ELSE LET f == Phys(W, os, SubSeq(url, 1, n)) IN
       IF f.ty = 2 THEN <<n, f>> ELSE Root(W, os, url, n - 1)

Lookup(W, os, url) ==
  LET f == Phys(W, os, url) IN
  IF f.ty # -1 THEN [name |-> url[Len(url)], ty |-> Both(f), sz |-> f.sz, mt |-> f.mt, mth |-> f.mth, c |-> f.c]
  ELSE LET r == Root(W, os, url, Len(url) - 1) IN
       IF r[1] = 0 THEN None ELSE Find(r[2].sub, Drop(url, r[1]))
Listing(W, os, url) ==
  LET r == Root(W, os, url, Len(url)) IN
  IF r[1] = 0 \/ Phys(W, os, url).ty = 1 THEN {} ELSE Kids(r[2].sub, Drop(url, r[1]))
InWild(W, os, url, below) ==
  LET r == Root(W, os, url, IF below THEN Len(url) ELSE Len(url) - 1) IN r[1] # 0 /\ Wild(r[2].sub, r[2].wild, Drop(url, r[1]), below)
IsArch(W, os, url) == LET f == Phys(W, os, url) IN f.ty = 2 /\ f.sub # <<>>
CanHandle(W, os, url) ==
  IF Phys(W, os, url).ty = 1 THEN FALSE ELSE LET r == Root(W, os, url, Len(url)) IN r[1] # 0 /\ r[2].sub # <<>>

\* ---- calls -----------------------------------------------------------------
\* an entry as reported (e) against an entry of the model (k)
Same(e, k) == /\ IF k.ty = 4 THEN e.ty \in {2, 3} ELSE e.ty = k.ty
              /\ k.sz \in {-2, e.sz}
              /\ k.mt = -1 \/ <<e.mt, e.mth>> = <<k.mt, k.mth>>
\* w: it may have been damaged
StatFails(k, e, w) ==
       When(IF k.ty = -1 THEN e.ret = 0 /\ ~w ELSE e.ret # 0, "B1-exists")
  \cup When(e.ret = 0 /\ k.ty # -1 /\ e.name # k.name, "B2-name")
  \cup When(e.ret = 0 /\ k.ty # -1 /\ ~w /\ ~Same(e, k), "B2-information")
\* a lister: all its entries, the names that are left and those that were reported
NewLister(K, w) == [all |-> K, left |-> {k.name : k \in K}, done |-> {}, wild |-> w]
NextFails2(L, e) ==
  IF e.ok = 0 THEN When(L.left # {}, "A4-missing")
  ELSE LET k == {x \in L.all : x.name = e.name} IN
            When(k = {} /\ ~L.wild, "A1-not-a-child")
       \cup When(e.name \in L.done, "A2-twice")
       \cup When(~L.wild /\ \E x \in k : ~Same(e, x), "A3-information")
NextLister(L, e) == IF e.ok = 0 THEN L ELSE [L EXCEPT !.left = @ \ {e.name}, !.done = @ \cup {e.name}]
OpenFails(k, e, w) == When(IF e.ret = 1 THEN ~IsFile(k.ty) /\ ~w ELSE IsFile(k.ty), "O1-open-iff-file")
=============================================================================
