--------------------------- MODULE ProcessContract ---------------------------
(***************************************************************************)
(* What a command does is given by its script, a sequence of [op, n]:      *)
(*   w n  write n bytes       r n  read n bytes      ra  read to the end   *)
(*   e    copy input to output until the end of the input                  *)
(*   tac  read to the end, then write as many bytes                        *)
(*   co/ci close the output/input   x  exit   hold  wait forever           *)
(*   s    sleep                                                            *)
(* Effect gives the outcome with nin bytes of input if the command is not  *)
(* disturbed: out (bytes written), rec (bytes read), eof (it saw the end   *)
(* of its input), atco and eofco (the same when it closes its output).      *)
(***************************************************************************)
EXTENDS StreamContract

RECURSIVE Effect(_, _, _, _)
Effect(script, i, nin, s) ==
  IF i > Len(script) \/ s.dead = 1 THEN [s EXCEPT !.atco = IF @ = -1 THEN s.rec ELSE @, !.eofco = IF s.atco = -1 THEN s.eof ELSE @]
  ELSE LET o == script[i]
           left == nin - s.rec
       IN Effect(script, i + 1, nin,
         CASE o.op = "w"   -> [s EXCEPT !.out = @ + o.n]
           [] o.op = "r"   -> [s EXCEPT !.rec = @ + Min2(o.n, left), !.eof = IF o.n > left THEN 1 ELSE @]
           [] o.op = "ra"  -> [s EXCEPT !.rec = nin, !.eof = 1]
           [] o.op \in {"e", "tac"} -> [s EXCEPT !.rec = nin, !.eof = 1, !.out = @ + left]
           [] o.op = "co"  -> [s EXCEPT !.atco = IF @ = -1 THEN s.rec ELSE @, !.eofco = IF s.atco = -1 THEN s.eof ELSE @]
           [] o.op = "x"   -> [s EXCEPT !.dead = 1]
           [] o.op = "hold" -> [s EXCEPT !.dead = 1, !.holds = 1]
           [] OTHER -> s)
Outcome(script, nin) == Effect(script, 1, nin, [out |-> 0, rec |-> 0, eof |-> 0, atco |-> -1, eofco |-> 0, dead |-> 0, holds |-> 0])

\* after the stream was destroyed
\* e: script, nin, full (the stream was read to its end), flt (the input failed),
\*    started, alive, stray, fds, rec, recpre, receof
EndFails(e) ==
  LET o == Outcome(e.m.script, e.m.nin) IN
       When(e.alive = 1, "D1-command-terminated")
  \cup When(e.stray # 0, "D2-other-process-signalled")
  \cup When(e.fds # 0, "D3-descriptors-released")
  \cup When(e.recpre # 1, "I1-input-in-order")
  \cup When(e.rec > o.rec, "I1-input-in-order")
  \cup When(e.m.full = 1 /\ e.m.flt = 0 /\ e.rec < o.atco, "I2-whole-input")
  \cup When(e.m.full = 1 /\ e.m.flt = 0 /\ o.eofco = 1 /\ e.receof = 0, "I3-end-of-input")
  \cup When(e.m.full = 1 /\ e.m.flt = 0 /\ e.receof = 1 /\ o.eof = 0 /\ ~(\E i \in DOMAIN e.m.script : e.m.script[i].op = "co"),
            "I3-end-of-input")
  \cup When(e.m.full = 1 /\ e.m.flt = 0 /\ e.m.exists = 1 /\ e.started = 0, "D4-started")
=============================================================================
