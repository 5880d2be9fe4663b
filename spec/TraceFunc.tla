------------------------------ MODULE TraceFunc ------------------------------
(* Checks recorded calls of the text helpers against Text.                    *)
EXTENDS MailText, Magic, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l
Fails(e) ==
  CASE e.ev = "kmp" -> KmpFails(e)
    [] e.ev = "kmpbig" -> IF e.r # e.want THEN {"K1-finds-occurrence"} ELSE {}
    [] e.ev = "utf8" -> Utf8Fails(e)
    [] e.ev = "nl" -> NlFails(e)
    [] e.ev = "int" -> IntFails(e)
    [] e.ev = "b64" -> B64Fails(e)
    [] e.ev = "magic" -> MagicFails(e)
    [] e.ev = "sniff" -> SniffFails(e)
    [] e.ev = "mailtext" -> MailFails(e)
    [] e.ev = "crash" -> {"X1-crash"}
    [] e.ev = "hang" -> {"X2-hang"}
    [] OTHER -> {}
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET f == Fails(Trace[l]) IN IF f = {} THEN TRUE ELSE PrintT(<<"FAIL", l, f>>)
Spec == Init /\ [][Next]_l
Done == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT("TRACE-DONE")
=============================================================================
