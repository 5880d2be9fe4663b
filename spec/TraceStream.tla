----------------------------- MODULE TraceStream -----------------------------
(* Checks recorded executions of the implementation against StreamContract. *)
(* One event per public call; all fields are observed, so the search is     *)
(* linear. A violated clause is reported and the model resynchronises with  *)
(* the observation, so the rest of the trace is examined too.               *)
EXTENDS StreamContract, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES l, S          \* next event; streams of the current scenario by name

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Fails(e) ==
  CASE e.ev = "new" -> NewFails(e)
    [] e.ev \in {"read", "skip", "reset"} -> IF e.s \in DOMAIN S THEN CallFails(S[e.s], e) ELSE {}
    [] e.ev = "crash" -> {"X1-crash"}
    [] e.ev = "hang" -> {"X2-hang"}
    [] OTHER -> {}

After(e) ==
  CASE e.ev = "scn" -> <<>>
    [] e.ev = "new" -> Put(S, e.s, NewStream(e))
    [] e.ev \in {"read", "skip", "reset"} -> IF e.s \in DOMAIN S THEN Put(S, e.s, CallNext(S[e.s], e)) ELSE S
    [] OTHER -> S

Init == l = 1 /\ S = <<>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] f == Fails(e) IN
             /\ S' = After(e)
             /\ l' = l + 1
             /\ IF f = {} THEN TRUE ELSE PrintT(<<"FAIL", l, f>>)
Spec == Init /\ [][Next]_<<l, S>>
Done == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT("TRACE-DONE")
=============================================================================
