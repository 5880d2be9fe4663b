---------------------------- MODULE TraceArchive ----------------------------
(* Checks recorded uses of ArchiveReader against TreeContract, and the      *)
(* streams it opens against StreamContract.                                 *)
EXTENDS TraceStream, TreeContract

VARIABLES W,     \* file systems by opener
          R,     \* openers by reader
          D      \* listers

K(e) == Lookup(W, R[e.r], e.url)
AFails(e) ==
  CASE e.ev = "arstat" -> StatFails(K(e), e, InWild(W, R[e.r], e.url, FALSE))
    [] e.ev = "arisarch" -> When((e.ret = 1) # IsArch(W, R[e.r], e.url) /\ ~InWild(W, R[e.r], e.url, TRUE), "B3-is-archive")
    [] e.ev = "arcan" -> When((e.ret = 1) # CanHandle(W, R[e.r], e.url) /\ ~InWild(W, R[e.r], e.url, TRUE), "B4-can-handle")
    [] e.ev = "arnx" -> NextFails2(D[e.l], e)
    [] e.ev = "aropen" -> LET k == K(e) IN
         IF Assert(~IsFile(k.ty) \/ k.c = e.c, <<"the scenario expects another member", k, e>>)
         THEN OpenFails(k, e, InWild(W, R[e.r], e.url, FALSE)) \cup When(e.ret = 1 /\ IsFile(k.ty) /\ (e.pos # 0 \/ e.st = Err \/ e.size \notin {-1, e.L}), "O2-opened-stream") ELSE {}
    [] OTHER -> Fails(e)
Opened(e) == [L |-> e.L, end |-> "clean", c |-> <<>>, kind |-> "entry", decl |-> -1, o0 |-> -1, tl |-> 0, clen |-> -1, rew |-> 0,
              pos |-> e.pos, size |-> e.size, st |-> e.st, lo |-> e.pos, hi |-> e.pos, dl |-> 0, de |-> 0, hw |-> 0]
AS(e) == CASE e.ev = "aropen" -> IF e.ret = 1 /\ IsFile(K(e).ty) THEN Put(S, e.s, Opened(e)) ELSE S
           [] e.ev = "arclose" -> [x \in DOMAIN S \ {e.s} |-> S[x]]
           [] OTHER -> After(e)
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
FS(o) == IF o \in DOMAIN W THEN W[o] ELSE <<>>
AW(e) == CASE e.ev = "scn" -> <<>>
           [] e.ev = "arset" -> Put(W, e.o, Put(FS(e.o), e.url, e.m))
           [] e.ev = "arrm" -> Put(W, e.o, Del(FS(e.o), e.url))
           [] OTHER -> W
AR(e) == CASE e.ev = "scn" -> <<>> [] e.ev = "arnew" -> Put(R, e.r, e.os) [] OTHER -> R
AD(e) == CASE e.ev = "scn" -> <<>>
           [] e.ev = "arls" -> Put(D, e.l, NewLister(Listing(W, R[e.r], e.url), InWild(W, R[e.r], e.url, TRUE)))
           [] e.ev = "arcp" -> Put(D, e.l, D[e.from])
           [] e.ev = "arlsdel" -> Del(D, e.l)
           [] e.ev = "arnx" -> Put(D, e.l, NextLister(D[e.l], e))
           [] OTHER -> D

AInit == Init /\ W = <<>> /\ R = <<>> /\ D = <<>>
ANext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] f == AFails(e) IN
              /\ S' = AS(e) /\ W' = AW(e) /\ R' = AR(e) /\ D' = AD(e)
              /\ l' = l + 1
              /\ IF f = {} THEN TRUE ELSE PrintT(<<"FAIL", l, f>>)
ASpec == AInit /\ [][ANext]_<<l, S, W, R, D>>
=============================================================================
