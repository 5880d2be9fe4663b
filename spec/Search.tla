------------------------------- MODULE Search -------------------------------
(* The search algorithm in use (turbo Boyer-Moore), transcribed: one action   *)
(* per placement of the window. Checked for all texts and queries over a       *)
(* small alphabet: the answer is the first occurrence, only bytes of the text  *)
(* are examined, and the search ends.                                          *)
EXTENDS Text, TLC, Json
CONSTANTS Alpha, MaxQ, MaxT, PrintTests
VARIABLES q, t, jp, u, shift, done, res
vars == <<q, t, jp, u, shift, done, res>>
Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b
m == Len(q)
\* bad character shifts, as in the code: minus the last index before the end, 1 if absent
Bc(ch) == LET I == {i \in 0..(m - 2) : q[i + 1] = ch} IN IF I = {} THEN 1 ELSE -(CHOOSE i \in I : \A j \in I : j <= i)
\* longest common suffix of q and its prefix of length i+1
Suff(i) == CHOOSE k \in 0..(i + 1) : (\A j \in 0..(k - 1) : q[i + 1 - j] = q[m - j]) /\ (k = i + 1 \/ q[i + 1 - k] # q[m - k])
\* good suffix shifts by their definition (position i mismatches, i+1..m-1 match)
Gs(i) ==
  LET B == {k \in 0..(m - 2) : m - 1 - Suff(k) = i}
      P == {k \in 0..(m - 1) : Suff(k) = k + 1 /\ i < m - 1 - k}
  IN IF B # {} THEN m - 1 - (CHOOSE k \in B : \A j \in B : j <= k)
     ELSE IF P # {} THEN m - 1 - (CHOOSE k \in P : \A j \in P : j <= k)
     ELSE m
\* compare backwards from i; the first index that mismatches, or a negative one
RECURSIVE Cmp(_, _, _, _)
Cmp(j, i, uu, sh) ==
  IF i < 0 THEN i
  ELSE IF q[i + 1] # t[j + i + 1] THEN i
  ELSE LET i1 == i - 1 i2 == IF uu # 0 /\ i1 = m - 1 - sh THEN i1 - uu ELSE i1 IN Cmp(j, i2, uu, sh)

Init == /\ q \in UNION {[1..n -> Alpha] : n \in 1..MaxQ} /\ t \in UNION {[1..n -> Alpha] : n \in 0..MaxT}
        /\ jp = 0 /\ u = 0 /\ shift = Len(q) /\ done = FALSE /\ res = -1
        /\ IF PrintTests THEN PrintT(<<"TEST", ToJson([q |-> q, t |-> t])>>) ELSE TRUE
Step ==
  /\ ~done
  /\ IF jp > Len(t) - m THEN done' = TRUE /\ UNCHANGED <<jp, u, shift, res>>
     ELSE LET i == Cmp(jp, m - 1, u, shift) IN
          IF i < 0 THEN done' = TRUE /\ res' = (IF i = -1 THEN jp ELSE -1) /\ UNCHANGED <<jp, u, shift>>
          ELSE LET v == m - 1 - i ts == u - v bc == Bc(t[jp + i + 1]) + i gs == Gs(i)
                   s1 == Max(Max(ts, bc), gs)
               IN IF s1 = gs THEN shift' = s1 /\ u' = Min(m - s1, v) /\ jp' = jp + s1 /\ UNCHANGED <<done, res>>
                  ELSE LET s2 == IF ts < bc THEN Max(s1, u + 1) ELSE s1 IN
                       shift' = s2 /\ u' = 0 /\ jp' = jp + s2 /\ UNCHANGED <<done, res>>
  /\ UNCHANGED <<q, t>>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
Correct == done => (IF res = -1 THEN IsAbsent(t, q) ELSE IsFirst(t, q, res))
Progress == [][~done' => jp' > jp]_vars
Ends == <>done
=============================================================================
