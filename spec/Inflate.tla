------------------------------- MODULE Inflate -------------------------------
(* The refill loop of the decompressing streams (gzip, bzip2, lzma): a decoder *)
(* consumes items of the input in the chunks the input happens to deliver and  *)
(* produces output into the space the buffer happens to have.                  *)
(* The compressed data is a sequence of tokens, each of which yields 0 or more *)
(* items of output once it is consumed, and an end token; other data follows.  *)
(* Checked: each refill is one that BufferedStream may get from its source     *)
(* (its Refill action), in particular                                          *)
(*   F1 never more than the space, in order, nothing lost or repeated           *)
(*   F2 a refill of nothing makes progress in the input (no endless loop)       *)
(*   F3 the end is announced exactly when the end token was reached             *)
(*   F4 incomplete data ends in an error with a message, complete data never    *)
(*   G1 at the end the input is just after the compressed data                  *)
(* Design: "good"; "greedy" reads whenever it is asked, also when the decoder   *)
(*   still has input; "noreset" leaves the input after the chunk; "eofend"      *)
(*   takes the end of the input for the end of the data                          *)

EXTENDS ParentStream, TLC
CONSTANTS MaxTokens, Yields, Tails, MaxSpace, Anys, Design

VARIABLES toks, o0,      \* the compressed data, and where it starts
          p,             \* the input
          have,          \* items of the current chunk that the decoder did not consume
          used,          \* tokens consumed (the end token included)
          outq,          \* output that is ready but did not fit
          made,          \* output delivered
          roomleft,      \* the last decode did not fill its space
          st, ended, bad
vars == <<toks, o0, p, have, used, outq, made, roomleft, st, ended, bad>>

RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
SeqsUpTo(T, n) == UNION {[1..m -> T] : m \in 0..n}
CLen == Len(toks) + 1
Complete == p.L >= o0 + CLen

Init == \E s \in SeqsUpTo(Yields, MaxTokens), o \in 0..1, tl \in Tails, any \in Anys, known \in BOOLEAN, e \in {"clean", "error"} :
        \E cut \in {o + Len(s) + 1 + tl} \cup (o..(o + Len(s))) :
          /\ known => e = "clean"
          /\ toks = s /\ o0 = o
          /\ p = [L |-> cut, end |-> e, pos |-> o, st |-> Ok, size |-> IF known THEN cut ELSE -1, lo |-> o, hi |-> o, any |-> any]
          /\ have = 0 /\ used = 0 /\ outq = 0 /\ made = 0 /\ roomleft = TRUE /\ st = Ok /\ ended = FALSE /\ bad = {}

\* the decoder, with h items of input and room for s items of output
RECURSIVE Decode(_, _, _, _, _)
Decode(h, u, q, s, n) ==     \* h input, u used, q ready, s space, n written
  IF q > 0 /\ s > 0 THEN LET k == Min2(q, s) IN Decode(h, u, q - k, s - k, n + k)
  ELSE IF u = CLen THEN [h |-> h, u |-> u, q |-> q, n |-> n, s |-> s, done |-> q = 0]
  ELSE IF s = 0 \/ h = 0 THEN [h |-> h, u |-> u, q |-> q, n |-> n, s |-> s, done |-> FALSE]
  ELSE IF u < Len(toks) THEN Decode(h - 1, u + 1, toks[u + 1], s, n)
  ELSE [h |-> h - 1, u |-> u + 1, q |-> 0, n |-> n, s |-> s, done |-> TRUE]

Fails(n, s, q, u, status, over) ==
       When(n > s \/ made + Max2(n, 0) # Total(SubSeq(toks, 1, Min2(u, Len(toks)))) - q, "F1-in-order")
  \cup When(n = 0 /\ status = Ok /\ ~over /\ u = used /\ roomleft, "F2-progress")
  \cup When(status = Err /\ Complete, "F4-clean-never-errors")
  \cup When(over /\ ~(u = CLen /\ made + Max2(n, 0) = Total(toks)), "F3-true-end")

DecodeInto(par, h, space) ==
  LET d == Decode(h, used, outq, space, 0)
      back == IF d.done /\ d.h > 0 /\ Design # "noreset" THEN PReset(par, par.pos - d.h) ELSE {[r |-> par.pos, p |-> par]}
  IN \E b \in back :
       /\ bad' = Fails(d.n, space, d.q, d.u, Ok, d.done)
                 \cup When(d.done /\ b.p.pos # o0 + CLen, "G1-parent-after-compressed")
       /\ p' = b.p /\ have' = d.h /\ used' = d.u /\ outq' = d.q /\ made' = made + d.n
       /\ roomleft' = (d.s > 0) /\ ended' = d.done /\ UNCHANGED st

Fill(space) ==
  /\ st = Ok
  /\ UNCHANGED <<toks, o0>>
  /\ IF ended
     THEN /\ bad' = Fails(-1, space, outq, used, Ok, TRUE)
          /\ UNCHANGED <<p, have, used, outq, made, roomleft, st, ended>>
     ELSE IF (Design \in {"good", "noreset", "eofend"} /\ roomleft) \/ Design = "greedy"
     THEN \E o \in PRead(p, 1, 0) :
            IF o.n < 1
            THEN /\ p' = o.p /\ roomleft' = roomleft /\ UNCHANGED <<have, used, outq, made>>
                 /\ IF Design = "eofend" /\ o.n = -1
                    THEN ended' = TRUE /\ st' = st /\ bad' = Fails(-1, space, outq, used, Ok, TRUE)
                    ELSE st' = Err /\ ended' = ended /\ bad' = Fails(-1, space, outq, used, Err, FALSE)
            ELSE DecodeInto(o.p, o.n, space)
     ELSE DecodeInto(p, have, space)
Next == \E s \in 1..MaxSpace : Fill(s)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RefillHolds == bad = {}
InStep == ~ended /\ st = Ok => p.pos = o0 + used + have
\* whatever the chunks and the space: the end or an error
Terminates == <>(ended \/ st = Err)
Outcome == [](Complete => st # Err) /\ [](ended => Complete /\ made = Total(toks))
=============================================================================
