---------------------------- MODULE ArchiveReader ----------------------------
(***************************************************************************)
(* The design of ArchiveReader: incremental listings shared by listers, a  *)
(* cache of complete listings, and validation by modification time.        *)
(*                                                                         *)
(* There is one plain file <<"a">>; World gives its content by version,    *)
(* and a version is used at most once, as its modification time.           *)
(* A listing reads the members one by one; a member that is an archive is  *)
(* read completely before it shows up in the tree of the listing.          *)
(* Objects are numbered; a listing and the tree it builds have the same    *)
(* number, but the tree may live longer: in the cache.                     *)
(*                                                                         *)
(* Every call is checked against TreeContract.                             *)
(***************************************************************************)
EXTENDS TreeContract, TLC, FiniteSets
CONSTANTS World,      \* sequence of the versions: sequences of members
          Urls,       \* the paths that are used
          Listers,    \* names of listers
          MaxObj,     \* objects
          Moves,      \* TRUE: the wrong design, in which a complete tree moves to the cache
          KeepLate    \* FALSE: the wrong design, in which a late directory replaces the entry

VARIABLES ver,        \* version of the file, 0 if there is none
          used,       \* the newest version so far
          lip,        \* number -> [ver, k: steps done, done, refs], alive if refs > 0
          tree,       \* number -> [ver, k, refs]
          inmap, cached, \* number of the listing in progress and of the cached tree, or 0
          L,          \* listers
          D,          \* the contract's view of the listers
          bad         \* clauses that the last call broke
vars == <<ver, used, lip, tree, inmap, cached, L, D, bad>>

FileM(p) == [p |-> p, ty |-> 2, sz |-> 1, mt |-> 1, mth |-> 0, c |-> 1, late |-> 0, wild |-> 0, sub |-> <<>>]
ArchM(p, sub) == [FileM(p) EXCEPT !.sub = sub]
DirM(p, late) == [FileM(p) EXCEPT !.ty = 1, !.sz = 0, !.late = late]
A(v) == IF v = 0 THEN <<>> ELSE World[v]
Phy(v) == [ty |-> 2, sz |-> 1, mt |-> v, mth |-> 0, c |-> v, sub |-> A(v), wild |-> 0]
FSys(v) == [o |-> IF v = 0 THEN <<>> ELSE (<<"a">> :> Phy(v))]
Os == <<"o">>

\* ---- what a listing has found after k steps ---------------------------------
RECURSIVE Cost(_), Steps(_)
Cost(m) == 1 + Steps(m.sub)
Steps(ms) == IF ms = <<>> THEN 0 ELSE Cost(ms[1]) + Steps(Tail(ms))
RECURSIVE Vis(_, _)
Vis(ms, k) == IF ms = <<>> \/ k < Cost(ms[1]) THEN <<>> ELSE <<ms[1]>> \o Vis(Tail(ms), k - Cost(ms[1]))
\* the wrong design loses what is below a directory that comes later
RECURSIVE Shown(_, _)
Shown(ms, n) ==
  IF n = 0 THEN <<>>
  ELSE LET b == Shown(ms, n - 1) IN
       Append(IF KeepLate \/ ms[n].late = 0 THEN b ELSE SelectSeq(b, LAMBDA m : ~IsPre(ms[n].p, m.p)), ms[n])
Seen(o) == LET v == Vis(A(tree[o].ver), tree[o].k) IN Shown(v, Len(v))
SeenAt(o, k) == LET v == Vis(A(tree[o].ver), k) IN Shown(v, Len(v))

\* as an entry is reported: directories without member have no size and time
Rep(e) == [name |-> e.name, ty |-> e.ty, sz |-> IF e.sz = -2 THEN 0 ELSE e.sz, mt |-> IF e.mt = -1 THEN 0 ELSE e.mt, mth |-> e.mth]
Ents(ms, path) == {Rep(e) : e \in Kids(ms, path)}
Rel(url) == Drop(url, 1)
Exists(ms, path) == path = <<>> \/ Kids(ms, SubSeq(path, 1, Len(path) - 1)) \cap {e \in Kids(ms, SubSeq(path, 1, Len(path) - 1)) : e.name = path[Len(path)]} # {}

\* ---- references --------------------------------------------------------------
NoObj == [ver |-> 0, k |-> 0, done |-> FALSE, refs |-> 0]
Free == {o \in 1..MaxObj : lip[o].refs = 0 /\ tree[o].refs = 0}
\* state of the heap as a record, so that operations can be composed
Heap == [lip |-> lip, tree |-> tree, inmap |-> inmap, cached |-> cached]
UnTree(h, o) == [h EXCEPT !.tree[o].refs = @ - 1]
\* a listing that goes away drops its tree
UnLip(h, o) ==
  IF h.lip[o].refs > 1 THEN [h EXCEPT !.lip[o].refs = @ - 1]
  ELSE LET g == [h EXCEPT !.lip[o] = NoObj] IN
       IF Moves /\ h.cached = o THEN g ELSE UnTree(g, o)
RefLip(h, o) == [h EXCEPT !.lip[o].refs = @ + 1]
\* listings and trees of an older version are dropped
DropChanged(h) ==
  LET g == IF h.inmap # 0 /\ h.lip[h.inmap].ver # ver THEN [UnLip(h, h.inmap) EXCEPT !.inmap = 0] ELSE h IN
  IF g.cached # 0 /\ g.tree[g.cached].ver # ver THEN [UnTree(g, g.cached) EXCEPT !.cached = 0] ELSE g
Total(v) == Steps(A(v))
\* one step of listing o: the last one only finds that there is nothing left
Step(h, o) == IF h.lip[o].done THEN h
              ELSE IF h.lip[o].k < Total(h.lip[o].ver) THEN [h EXCEPT !.lip[o].k = @ + 1, !.tree[o].k = @ + 1]
              ELSE [h EXCEPT !.lip[o].done = TRUE]
KidsIn(h, o, path) == LET v == Vis(A(h.tree[o].ver), h.tree[o].k) IN Ents(Shown(v, Len(v)), path)
\* read on until there are more than n entries at path
RECURSIVE ReadOn(_, _, _, _)
ReadOn(h, o, path, n) ==
  IF h.lip[o].done \/ Cardinality(KidsIn(h, o, path)) > n THEN h ELSE ReadOn(Step(h, o), o, path, n)
ExistsIn(h, o, path) == LET v == Vis(A(h.tree[o].ver), h.tree[o].k) IN Exists(Shown(v, Len(v)), path)

\* ---- dirEntries --------------------------------------------------------------
Static(es) == [kind |-> "static", es |-> es, o |-> 0, url |-> <<>>, got |-> FALSE, done |-> {}, end |-> FALSE]
Dyn(o, url) == [kind |-> "dyn", es |-> {}, o |-> o, url |-> url, got |-> FALSE, done |-> {}, end |-> FALSE]
\* result: <<heap, lister>>
DirEntries(h0, url) ==
  LET h1 == DropChanged(h0)
      path == Rel(url)
      sub == h1.cached # 0 /\ ExistsIn(h1, h1.cached, path)
  IN
  IF sub THEN <<h1, Static(KidsIn(h1, h1.cached, path))>>
  ELSE IF h1.inmap = 0 /\ (ver = 0 \/ h1.cached # 0) THEN <<h1, Static({})>>
  ELSE
  LET h2 == IF h1.inmap # 0 THEN h1
            ELSE LET o == CHOOSE x \in Free : TRUE IN
                 [h1 EXCEPT !.lip[o] = [ver |-> ver, k |-> 0, done |-> A(ver) = <<>>, refs |-> 1],
                            !.tree[o] = [ver |-> ver, k |-> 0, refs |-> 1], !.inmap = o]
      o == h2.inmap
  IN
  IF ~h2.lip[o].done THEN <<RefLip(h2, o), Dyn(o, url)>>
  ELSE LET h3 == IF Moves THEN [h2 EXCEPT !.cached = o] ELSE [h2 EXCEPT !.tree[o].refs = @ + 1, !.cached = o]
           h4 == [UnLip(h3, o) EXCEPT !.inmap = 0]
       IN <<h4, Static(IF ExistsIn(h4, o, path) THEN KidsIn(h4, o, path) ELSE {})>>

\* ---- a lister ------------------------------------------------------------------
\* result: <<heap, lister, entry or End>>
End == [name |-> "", ty |-> 0, sz |-> 0, mt |-> 0, mth |-> 0]
Dead(x) == x.kind = "dyn" /\ lip[x.o].refs = 0
\* TRUE if a lister uses a tree that was given away
Dangling(h, x) == x.kind = "dyn" /\ (h.lip[x.o].refs = 0 \/ h.tree[x.o].refs = 0 \/ (Moves /\ h.cached = x.o))
NextOf(h, x) ==
  IF x.end THEN <<h, x, End>>
  ELSE IF x.kind = "static" THEN
    LET left == {e \in x.es : e.name \notin x.done} IN
    IF left = {} THEN <<h, [x EXCEPT !.end = TRUE], End>>
    ELSE LET e == CHOOSE e \in left : TRUE IN <<h, [x EXCEPT !.done = @ \cup {e.name}], e>>
  ELSE
    LET path == Rel(x.url)
        h2 == IF \E e \in KidsIn(h, x.o, path) : e.name \notin x.done THEN h ELSE ReadOn(h, x.o, path, Cardinality(x.done))
        left == {e \in KidsIn(h2, x.o, path) : e.name \notin x.done}
    IN IF left = {} THEN <<h2, [x EXCEPT !.end = TRUE], End>>
       ELSE LET e == CHOOSE e \in left : TRUE IN <<h2, [x EXCEPT !.done = @ \cup {e.name}, !.got = TRUE], e>>
Drp(h, x) == IF x.kind = "dyn" THEN UnLip(h, x.o) ELSE h

\* ---- calls ---------------------------------------------------------------------
Gone == [kind |-> "none", es |-> {}, o |-> 0, url |-> <<>>, got |-> FALSE, done |-> {}, end |-> FALSE]
Set(h) == lip' = h.lip /\ tree' = h.tree /\ inmap' = h.inmap /\ cached' = h.cached
K(url) == Lookup(FSys(ver), Os, url)

Ls(l, url) ==
  LET h == Drp(Heap, L[l]) r == DirEntries(h, url) IN
  /\ Free # {} /\ Set(r[1]) /\ L' = [L EXCEPT ![l] = r[2]]
  /\ D' = [D EXCEPT ![l] = NewLister(Listing(FSys(ver), Os, url), FALSE)]
  /\ bad' = {} /\ UNCHANGED <<ver, used>>
Nx(l) ==
  /\ L[l].kind # "none"
  /\ IF Dangling(Heap, L[l]) THEN bad' = {"use-after-free"} /\ UNCHANGED <<ver, used, lip, tree, inmap, cached, L, D>>
     ELSE LET r == NextOf(Heap, L[l])
              e == [ok |-> IF r[3] = End THEN 0 ELSE 1, name |-> r[3].name, ty |-> r[3].ty, sz |-> r[3].sz, mt |-> r[3].mt, mth |-> r[3].mth]
          IN /\ Set(r[1]) /\ L' = [L EXCEPT ![l] = r[2]] /\ D' = [D EXCEPT ![l] = NextLister(D[l], e)]
             /\ bad' = NextFails2(D[l], e) /\ UNCHANGED <<ver, used>>
Cp(l, m) ==
  /\ l # m /\ L[l].kind # "none"
  /\ LET h == IF L[l].kind = "dyn" THEN RefLip(Heap, L[l].o) ELSE Heap IN Set(Drp(h, L[m]))
  /\ L' = [L EXCEPT ![m] = L[l]] /\ D' = [D EXCEPT ![m] = D[l]] /\ bad' = {} /\ UNCHANGED <<ver, used>>
Del(l) ==
  /\ L[l].kind # "none" /\ Set(Drp(Heap, L[l])) /\ L' = [L EXCEPT ![l] = Gone]
  /\ D' = [D EXCEPT ![l] = NewLister({}, FALSE)] /\ bad' = {} /\ UNCHANGED <<ver, used>>
\* the type of the plain file, as the reader finds it
LocalType(h) == IF h.inmap # 0 THEN (IF A(h.lip[h.inmap].ver) # <<>> THEN 3 ELSE 2)
                ELSE IF h.cached # 0 THEN (IF A(h.tree[h.cached].ver) # <<>> THEN 3 ELSE 2)
                ELSE IF A(ver) # <<>> THEN 3 ELSE 2
RECURSIVE Search(_, _, _)
Search(h, x, name) == LET r == NextOf(h, x) IN IF r[3] = End \/ r[3].name = name THEN r ELSE Search(r[1], r[2], name)
Stat(url) ==
  /\ Free # {}
  /\ IF Len(url) = 1
     THEN LET h == DropChanged(Heap) IN
          /\ Set(h) /\ UNCHANGED <<ver, used, L, D>>
          /\ bad' = StatFails(K(url), [ret |-> IF ver = 0 THEN -1 ELSE 0, name |-> "a", ty |-> LocalType(h), sz |-> 1, mt |-> ver, mth |-> 0], FALSE)
     ELSE LET h == DropChanged(Heap) path == Rel(url) n == url[Len(url)]
              hit == h.cached # 0 /\ ExistsIn(h, h.cached, path)
              up == SubSeq(url, 1, Len(url) - 1)
              de == DirEntries(h, up)
              r == IF hit THEN <<h, Gone, CHOOSE e \in KidsIn(h, h.cached, Rel(up)) : e.name = n>> ELSE Search(de[1], de[2], n)
              e == [ret |-> IF r[3] = End THEN -1 ELSE 0, name |-> r[3].name, ty |-> r[3].ty, sz |-> r[3].sz, mt |-> r[3].mt, mth |-> r[3].mth]
          IN /\ Set(Drp(r[1], r[2])) /\ UNCHANGED <<ver, used, L, D>> /\ bad' = StatFails(K(url), e, FALSE)
\* isArchive and canHandle of the plain file and what is below it
IsA(url) ==
  LET h == DropChanged(Heap) t == IF ver = 0 THEN -1 ELSE LocalType(h) IN
  /\ Set(h) /\ UNCHANGED <<ver, used, L, D>>
  /\ bad' = When((Len(url) = 1 /\ t = 3) # IsArch(FSys(ver), Os, url), "B3-is-archive") \cup When((t = 3) # CanHandle(FSys(ver), Os, url), "B4-can-handle")
Put2(v) == ver' = v /\ used' = v /\ UNCHANGED <<lip, tree, inmap, cached, L>> /\ bad' = {} /\ D' = D
Touch == used < Len(World) /\ Put2(used + 1)
Rm == ver # 0 /\ ver' = 0 /\ bad' = {} /\ UNCHANGED <<used, lip, tree, inmap, cached, L, D>>

Init == /\ ver = 1 /\ used = 1 /\ lip = [o \in 1..MaxObj |-> NoObj] /\ tree = [o \in 1..MaxObj |-> [ver |-> 0, k |-> 0, refs |-> 0]]
        /\ inmap = 0 /\ cached = 0 /\ L = [l \in Listers |-> Gone] /\ D = [l \in Listers |-> NewLister({}, FALSE)] /\ bad = {}
Next == \/ \E l \in Listers : \E u \in Urls : Ls(l, u)
        \/ \E l \in Listers : Nx(l) \/ Del(l) \/ \E m \in Listers : Cp(l, m)
        \/ \E u \in Urls : Stat(u) \/ IsA(u)
        \/ Touch \/ Rm
Spec == Init /\ [][Next]_vars

\* ---- properties ----------------------------------------------------------------
Contract == bad = {}
\* references are counted exactly: nothing leaks and nothing is used after it is gone
Uses(o) == Cardinality({l \in Listers : L[l].kind = "dyn" /\ L[l].o = o}) + (IF inmap = o THEN 1 ELSE 0)
Counts == \A o \in 1..MaxObj : /\ lip[o].refs = Uses(o)
                               /\ tree[o].refs = (IF lip[o].refs > 0 THEN 1 ELSE 0) + (IF cached = o THEN 1 ELSE 0)
NoNeed == Cardinality({o \in 1..MaxObj : lip[o].refs > 0 \/ tree[o].refs > 0}) <= Cardinality(Listers) + 2

\* ---- worlds ----------------------------------------------------------------------
WorldA == << <<FileM(<<"d", "y">>), FileM(<<"x">>), DirM(<<"d">>, 1)>>,
             <<FileM(<<"x">>), FileM(<<"d", "w">>)>>, <<>> >>
WorldB == << <<ArchM(<<"n">>, <<FileM(<<"z">>), FileM(<<"d", "q">>)>>), FileM(<<"x">>)>>, <<FileM(<<"n">>)>> >>
WorldC == << <<FileM(<<"d", "e", "y">>), ArchM(<<"d", "n">>, <<ArchM(<<"i">>, <<FileM(<<"z">>)>>), FileM(<<"d", "q">>), DirM(<<"d">>, 1)>>), DirM(<<"d">>, 1), FileM(<<"dd">>)>>,
             <<>>, <<DirM(<<"d">>, 0), FileM(<<"d", "e">>), FileM(<<"d", "n">>)>> >>
UrlsA == {<<"a">>, <<"a", "d">>, <<"a", "x">>, <<"a", "d", "w">>}
UrlsB == {<<"a">>, <<"a", "n">>, <<"a", "n", "d">>, <<"a", "x">>}
UrlsC == {<<"a">>, <<"a", "d">>, <<"a", "d", "n">>, <<"a", "d", "n", "i">>, <<"a", "d", "n", "d", "q">>, <<"a", "dd">>}
=============================================================================
