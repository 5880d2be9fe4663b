---------------------------- MODULE TraceProcess ----------------------------
(* Checks recorded uses of process streams against ProcessContract.          *)
EXTENDS TraceStream, ProcessContract

XFails(e) ==
  CASE e.ev = "procend" -> EndFails(e)
    [] e.ev = "procnew" -> IF Assert(e.m.end # "clean" \/ e.m.exists = 0 \/ e.m.L = Outcome(e.m.script, e.m.nin).out, <<"inconsistent script", e.m>>) THEN {} ELSE {}
    [] OTHER -> Fails(e)
XNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] f == XFails(e) IN
              /\ S' = After(e) /\ l' = l + 1
              /\ IF f = {} THEN TRUE ELSE PrintT(<<"FAIL", l, f>>)
XSpec == Init /\ [][XNext]_<<l, S>>
=============================================================================
