------------------------------ MODULE SubStream ------------------------------
(* A window of a parent stream (SubInputStream), one action per public call. *)
(* Checked for every parent the contract allows.                              *)
EXTENDS Window
CONSTANTS Lens, Wins, MaxMin, MaxMax, MaxSkip, Anys
VARIABLES p, w, ps, bad
vars == <<p, w, ps, bad>>

\* what the contract promises for this window
Lim(par, o, n) == IF n = -1 THEN par.L - o ELSE Min2(n, par.L - o)
EndOf(par, o, n) == IF n # -1 /\ n <= par.L - o /\ (par.end = "clean" \/ n < par.L - o) THEN "clean"
                    ELSE IF n = -1 THEN par.end ELSE IF n > par.L - o THEN "error" ELSE "any"

Init == \E par \in GoodParents(Lens, {"clean", "error"}, Anys), o \in 0..2, n \in Wins :
          /\ o <= par.L
          /\ p = [par EXCEPT !.pos = o, !.lo = 0, !.hi = o]
          /\ w = WNew(p, n) /\ bad = {}
          /\ ps = NewStream([Streams0 EXCEPT !.kind = "sub", !.o0 = o, !.decl = IF EndOf(par, o, n) = "clean" THEN n ELSE -1,
                                             !.size = n]
                            @@ [L |-> Lim(par, o, n), end |-> EndOf(par, o, n)])

Step(outs) == \E x \in outs : bad' = CallFails(ps, x.e) /\ ps' = CallNext(ps, x.e) /\ w' = x.w /\ p' = x.p
Read(min, max) == Step(WRead(w, p, min, max))
Skip(k) == Step(WSkip(w, p, k))
Reset(q) == Step(WReset(w, p, q))

Next == \/ \E min \in 1..MaxMin, max \in 0..MaxMax : Read(min, max)
        \/ \E k \in 0..MaxSkip : Skip(k)
        \/ \E q \in 0..MaxSkip : Reset(q)
Spec == Init /\ [][Next]_vars

WinsC == {-1, 0, 1, 2, 3, 6}
ContractHolds == bad = {}
\* the parent is never consumed beyond the window
NeverBeyond == (w.size # -1 /\ w.st # Err) => p.pos <= w.o0 + w.size
InStep == w.st # Err => p.pos = w.o0 + w.pos
=============================================================================
