------------------------------ MODULE Transcode ------------------------------
(* The converting streams (InputStreamReader, EncodingInputStream): a converter *)
(* turns characters of one or more bytes into units of output, over input that  *)
(* arrives in chunks, may be cut inside a character or fail, and into the space  *)
(* that the buffer happens to have.                                              *)
(* A character is [w |-> bytes, y |-> units]; y = -1: an invalid sequence.       *)
(* hold: the converter keeps the output of a character that is no mark until the *)
(* next one, because they may combine, and the last one until the text is over.  *)
(* Checked, of each refill of the buffer:                                        *)
(*   T1 never more than the space, in order, nothing lost or repeated            *)
(*   T2 a refill of nothing makes progress (no endless loop)                     *)
(*   T3 the end is announced exactly when everything was delivered               *)
(*   T4 only invalid, incomplete or failing input ends in an error               *)
(* Design: "good"; "inferred" takes an untouched buffer for the sign that more   *)
(* input is needed; "noflush" ends with the input; "nopend" waits for more space *)
(* if a character does not fit; "tailok" ends well inside a character            *)
EXTENDS ParentStream, TLC, Json
CONSTANTS MaxChars, Widths, Yields, Cap, Pend, MaxSpace, Holds, Design, PrintTests

VARIABLES chars, hold,   \* the text and the kind of converter
          p, inp,        \* the input, and whether it is still used
          avail,         \* bytes in the buffer of the converter that were not converted
          c,             \* characters converted
          held,          \* units the converter holds back, -1: nothing
          pend,          \* units that did not fit
          need, flushed, made, st, ended, bad, sched
vars == <<chars, hold, p, inp, avail, c, held, pend, need, flushed, made, st, ended, bad, sched>>

RECURSIVE Units(_), Width(_)
Units(s) == IF s = <<>> THEN 0 ELSE Max2(Head(s).y, 0) + Units(Tail(s))
Width(s) == IF s = <<>> THEN 0 ELSE Head(s).w + Width(Tail(s))
SeqsUpTo(T, n) == UNION {[1..m -> T] : m \in 0..n}
Char == {x \in [w : Widths, y : Yields \cup {-1}, mark : BOOLEAN] : x.y < 0 => ~x.mark}
\* the characters the input has as a whole
RECURSIVE Whole(_)
Whole(i) == IF i < Len(chars) /\ Width(SubSeq(chars, 1, i + 1)) <= p.L THEN Whole(i + 1) ELSE i
Text == SubSeq(chars, 1, Whole(0))
Complete == p.L = Width(Text) /\ p.end = "clean" /\ \A k \in DOMAIN Text : Text[k].y >= 0

Init == \E s \in SeqsUpTo(IF TRUE \in Holds THEN Char ELSE {x \in Char : ~x.mark}, MaxChars), e \in {"clean", "error"}, h \in Holds, any \in {FALSE} :
        \E cut \in 0..Width(s) :
          /\ chars = s /\ hold = h
          /\ p = [L |-> cut, end |-> e, pos |-> 0, st |-> Ok, size |-> -1, lo |-> 0, hi |-> 0, any |-> any]
          /\ inp = TRUE /\ avail = 0 /\ c = 0 /\ held = -1 /\ pend = 0 /\ need = TRUE /\ flushed = FALSE
          /\ made = 0 /\ st = Ok /\ ended = FALSE /\ bad = {} /\ sched = <<>>

\* the converter: b bytes, i characters done, h held, s space, n written
RECURSIVE Conv(_, _, _, _, _)
Conv(b, i, h, s, n) ==
  LET stop(why) == [b |-> b, c |-> i, h |-> h, n |-> n, why |-> why] IN
  IF b = 0 THEN stop("done")
  ELSE LET ch == chars[i + 1] IN
       IF b < ch.w THEN stop("incomplete")
       ELSE IF ch.y = -1 THEN stop("bad")
       ELSE IF h >= 0 THEN IF h > s THEN stop("full") ELSE Conv(b, i, -1, s - h, n + h)
       ELSE IF hold /\ ~ch.mark THEN Conv(b - ch.w, i + 1, ch.y, s, n)
       ELSE IF ch.y > s THEN stop("full") ELSE Conv(b - ch.w, i + 1, h, s - ch.y, n + ch.y)

Delivered(i, h, q) == Units(SubSeq(chars, 1, i)) - Max2(h, 0) - q
Fails(n, space, i, h, q, status, over, moved) ==
       When(n > space \/ (status = Ok /\ made + Max2(n, 0) # Delivered(i, h, q)), "T1-in-order")
  \cup When(n = 0 /\ status = Ok /\ ~over /\ ~moved /\ i = c /\ q = pend, "T2-progress")
  \cup When(over /\ ~(Complete /\ made + Max2(n, 0) = Units(Text)), "T3-true-end")
  \cup When(status = Err /\ Complete, "T4-clean-never-errors")

\* the results of a refill; par, av: the input and the buffer after reading
Give(par, av, i, h, q, n, nd, fl, status, over, in2, space, moved) ==
  /\ p' = par /\ avail' = av /\ c' = i /\ held' = h /\ pend' = q /\ need' = nd /\ flushed' = fl
  /\ st' = status /\ ended' = over /\ inp' = in2 /\ made' = made + Max2(n, 0)
  /\ bad' = Fails(n, space, i, h, q, status, over, moved)
Fail(par, in2, space) == Give(par, avail, c, held, pend, -1, need, flushed, Err, FALSE, in2, space, TRUE)
Decode(par, av, space, moved) ==
  LET d == Conv(av, c, held, space, 0) IN
  IF d.why = "bad" THEN Fail(par, inp, space)
  ELSE IF d.why = "full" /\ d.n = 0 /\ Design # "nopend" /\ d.c = c
  THEN LET f == Conv(av, c, held, Pend, 0)                    \* into the spare room
           k == Min2(space, f.n)
       IN IF f.why = "bad" /\ f.n = 0 THEN Fail(par, inp, space)
          ELSE IF f.why = "bad" THEN Fail(par, inp, space)
          ELSE Give(par, f.b, f.c, f.h, f.n - k, k, f.why # "full", flushed, Ok, FALSE, inp, space, moved)
  ELSE Give(par, d.b, d.c, d.h, 0, d.n,
            IF Design = "inferred" THEN d.why # "full" \/ (d.b = av /\ need) ELSE d.why # "full",
            flushed, Ok, FALSE, inp, space, moved)

Fill(space) ==
  /\ st = Ok /\ ~ended
  /\ UNCHANGED <<chars, hold>>
  /\ IF pend > 0
     THEN LET k == Min2(space, pend) IN Give(p, avail, c, held, pend - k, k, need, flushed, Ok, FALSE, inp, space, FALSE) /\ UNCHANGED sched
     ELSE IF ~inp
     THEN IF flushed \/ Design = "noflush" THEN Give(p, avail, c, held, pend, -1, need, flushed, Ok, TRUE, inp, space, FALSE) /\ UNCHANGED sched
          ELSE LET k == Min2(space, Max2(held, 0)) IN       \* the text is over: what the converter holds
               Give(p, avail, c, -1, Max2(held, 0) - k, k, need, TRUE, Ok, Max2(held, 0) = 0, FALSE, space, TRUE) /\ UNCHANGED sched
     ELSE IF need
     THEN \E o \in PRead(p, 1, Cap - avail) :
            /\ sched' = IF PrintTests /\ o.n > 0 THEN Append(sched, o.n) ELSE sched
            /\ IF o.n = -2 THEN Fail(o.p, FALSE, space)
               ELSE IF o.n < 1
               THEN IF avail > 0 /\ Design # "tailok" THEN Fail(o.p, FALSE, space)
                    ELSE Give(o.p, avail, c, held, pend, 0, need, flushed, Ok, FALSE, FALSE, space, TRUE)
               ELSE Decode(o.p, avail + o.n, space, TRUE)
     ELSE Decode(p, avail, space, FALSE) /\ UNCHANGED sched
  /\ IF PrintTests /\ (ended' \/ st' = Err)
     THEN PrintT(<<"TEST", ToJson([chars |-> chars, hold |-> hold, cut |-> p.L, fault |-> p.end = "error", sched |-> sched'])>>) ELSE TRUE
Next == \E s \in 1..MaxSpace : Fill(s)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RefillHolds == bad = {}
InStep == st = Ok => p.pos = Width(SubSeq(chars, 1, c)) + avail /\ avail <= Cap
Terminates == <>(ended \/ st = Err)
Outcome == [](ended => Complete /\ made = Units(Text))
=============================================================================
