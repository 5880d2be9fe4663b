----------------------------- MODULE ProcessPump -----------------------------
(***************************************************************************)
(* The exchange between ProcessInputStream and its command: two pipes of   *)
(* capacity Cap, a command that follows a script, an input stream of nin   *)
(* units handed out in chunks, and a reader that reads the stream to its   *)
(* end.  All interleavings of the command with the pump are explored.      *)
(* Algo = "poll" is the algorithm of the library: wait until one of the    *)
(* pipes is ready, write without blocking, put back what was not written.  *)
(* Algo = "block" (write, then read, both blocking) and "nowait" (a part   *)
(* write is taken as complete) are known wrong designs that the properties *)
(* have to refute.                                                         *)
(* Data is counted, not stored: both pipes are FIFO, so that the k-th unit *)
(* taken from a pipe is the k-th unit put into it.  lost counts units that *)
(* were taken from the input and not put into the pipe.                    *)
(***************************************************************************)
EXTENDS ProcessContract, TLC, Json
CONSTANTS Cap, MaxIn, MaxOps, Algo, Gen

Op(o, n) == [op |-> o, n |-> n]
Ops == {Op("w", 1), Op("w", 2), Op("r", 1), Op("r", 2), Op("ra", 0), Op("e", 0), Op("tac", 0), Op("co", 0), Op("x", 0)}
\* a command does not write after it closed its output
Scripts == {t \in UNION {[1 .. k -> Ops] : k \in 1 .. MaxOps} :
              \A x, y \in DOMAIN t : x < y /\ t[x].op = "co" => t[y].op \notin {"w", "e", "tac", "co"}}

VARIABLES script, nin,
          i,        \* the operation of the script the command is at
          k,        \* units done in that operation
          hold,     \* units read but not yet written (e, tac)
          cin, cout, \* the command has its input, its output open
          rec, ceof, wrote, \* units read, end of input seen, units written
          inp, outp, \* units in the pipes
          src, lost, \* position of the input stream; units that went missing
          pin,      \* the stream has its end of the input pipe open
          pc,       \* of the stream: "idle" (reader), "wait", "write", "read", "end"
          m,        \* units taken from the input stream but not yet written
          got       \* units the reader got
vars == <<script, nin, i, k, hold, cin, cout, rec, ceof, wrote, inp, outp, src, lost, pin, pc, m, got>>
child == <<i, k, hold, cin, cout, rec, ceof, wrote>>
const == <<script, nin>>

Init == /\ script \in Scripts /\ nin \in 0 .. MaxIn
        /\ i = 1 /\ k = 0 /\ hold = 0 /\ cin = TRUE /\ cout = TRUE /\ rec = 0 /\ ceof = 0 /\ wrote = 0
        /\ inp = 0 /\ outp = 0 /\ src = 0 /\ lost = 0 /\ pin = TRUE /\ pc = "idle" /\ m = 0 /\ got = 0

\* ---- the command --------------------------------------------------------
Running == i <= Len(script)
cur == script[i]
Next1 == i' = i + 1 /\ k' = 0 /\ hold' = 0
PutOne == /\ outp < Cap /\ outp' = outp + 1 /\ wrote' = wrote + 1
TakeOne == /\ inp > 0 /\ inp' = inp - 1 /\ rec' = rec + 1
AtEnd == inp = 0 /\ ~pin
Stream == <<src, lost, pin, pc, m, got>>

CWrite == /\ Running /\ cur.op = "w" /\ cout
          /\ \/ /\ k < cur.n /\ PutOne /\ k' = k + 1 /\ UNCHANGED <<i, hold>>
             \/ /\ k = cur.n /\ Next1 /\ UNCHANGED <<outp, wrote>>
          /\ UNCHANGED <<const, cin, cout, rec, ceof, inp, Stream>>
CRead == /\ Running /\ cur.op = "r" /\ cin
         /\ \/ /\ k < cur.n /\ TakeOne /\ k' = k + 1 /\ UNCHANGED <<i, hold, ceof>>
            \/ /\ k < cur.n /\ AtEnd /\ ceof' = 1 /\ Next1 /\ UNCHANGED <<inp, rec>>
            \/ /\ k = cur.n /\ Next1 /\ UNCHANGED <<inp, rec, ceof>>
         /\ UNCHANGED <<const, cin, cout, wrote, outp, Stream>>
CAll == /\ Running /\ cur.op = "ra" /\ cin
        /\ \/ TakeOne /\ UNCHANGED <<i, k, hold, ceof>>
           \/ AtEnd /\ ceof' = 1 /\ Next1 /\ UNCHANGED <<inp, rec>>
        /\ UNCHANGED <<const, cin, cout, wrote, outp, Stream>>
CEcho == /\ Running /\ cur.op = "e" /\ cin
         /\ \/ /\ hold = 0 /\ TakeOne /\ hold' = 1 /\ UNCHANGED <<i, k, ceof, outp, wrote>>
            \/ /\ hold = 1 /\ PutOne /\ hold' = 0 /\ UNCHANGED <<i, k, ceof, inp, rec>>
            \/ /\ hold = 0 /\ AtEnd /\ ceof' = 1 /\ Next1 /\ UNCHANGED <<inp, rec, outp, wrote>>
         /\ UNCHANGED <<const, cin, cout, Stream>>
CTac == /\ Running /\ cur.op = "tac" /\ cin
        /\ \/ /\ k = 0 /\ TakeOne /\ hold' = hold + 1 /\ UNCHANGED <<i, k, ceof, outp, wrote>>
           \/ /\ k = 0 /\ AtEnd /\ ceof' = 1 /\ k' = 1 /\ UNCHANGED <<i, hold, inp, rec, outp, wrote>>
           \/ /\ k = 1 /\ hold > 0 /\ PutOne /\ hold' = hold - 1 /\ UNCHANGED <<i, k, ceof, inp, rec>>
           \/ /\ k = 1 /\ hold = 0 /\ Next1 /\ UNCHANGED <<ceof, inp, rec, outp, wrote>>
        /\ UNCHANGED <<const, cin, cout, Stream>>
CClose == /\ Running /\ cur.op = "co" /\ cout' = FALSE /\ Next1
          /\ UNCHANGED <<const, cin, rec, ceof, wrote, inp, outp, Stream>>
CExit == /\ Running /\ cur.op = "x" /\ i' = Len(script) + 1 /\ UNCHANGED <<const, k, hold, cin, cout, rec, ceof, wrote, inp, outp, Stream>>
CDone == /\ ~Running /\ (cin \/ cout) /\ cin' = FALSE /\ cout' = FALSE
         /\ UNCHANGED <<const, i, k, hold, rec, ceof, wrote, inp, outp, Stream>>
Command == CWrite \/ CRead \/ CAll \/ CEcho \/ CTac \/ CClose \/ CExit \/ CDone

\* ---- the stream ---------------------------------------------------------
feeding == pin
OutReady == outp > 0 \/ ~cout       \* data, or hangup
InReady == inp < Cap \/ ~cin        \* space, or nobody reads: an error
same == <<const, child>>

Start == /\ pc = "idle"
         /\ pc' = IF ~feeding THEN "read" ELSE IF Algo = "poll" THEN "wait" ELSE "write"
         /\ UNCHANGED <<same, inp, outp, src, lost, pin, m, got>>
Wait == /\ pc = "wait"
        /\ IF ~feeding THEN OutReady /\ pc' = "read"
           ELSE \/ InReady /\ pc' = "write"
                \/ ~InReady /\ OutReady /\ pc' = "read"
        /\ UNCHANGED <<same, inp, outp, src, lost, pin, m, got>>
\* take a chunk from the input
Take == /\ pc = "write" /\ m = 0 /\ pin
        /\ IF src = nin THEN /\ pin' = FALSE /\ pc' = "read" /\ UNCHANGED <<src, m>>
           ELSE /\ \E c \in 1 .. nin - src : m' = c /\ src' = src + c
                /\ UNCHANGED <<pin, pc>>
        /\ UNCHANGED <<same, inp, outp, lost, got>>
\* write it to the pipe
After(put) == IF Algo = "poll" THEN IF OutReady THEN "read" ELSE "wait" ELSE "read"
Give == /\ pc = "write" /\ m > 0
        /\ IF ~cin THEN /\ pin' = FALSE /\ m' = 0 /\ pc' = "read" /\ UNCHANGED <<inp, src, lost>>
           ELSE CASE Algo = "poll" ->        \* what does not fit is put back
                       LET put == Min2(m, Cap - inp) IN
                       /\ inp' = inp + put /\ src' = src - (m - put) /\ m' = 0 /\ pc' = After(put) /\ UNCHANGED <<lost, pin>>
                  [] Algo = "nowait" ->      \* what does not fit is forgotten
                       LET put == Min2(m, Cap - inp) IN
                       /\ inp' = inp + put /\ lost' = lost + (m - put) /\ m' = 0 /\ pc' = "read" /\ UNCHANGED <<src, pin>>
                  [] OTHER ->                \* wait until it fits
                       /\ inp < Cap /\ inp' = inp + 1 /\ m' = m - 1 /\ pc' = (IF m = 1 THEN "read" ELSE pc) /\ UNCHANGED <<src, lost, pin>>
        /\ UNCHANGED <<same, outp, got>>
Read == /\ pc = "read"
        /\ \/ \E n \in 1 .. outp : outp' = outp - n /\ got' = got + n /\ pc' = "idle"
           \/ outp = 0 /\ ~cout /\ pc' = "end" /\ UNCHANGED <<outp, got>>
        /\ UNCHANGED <<same, inp, src, lost, pin, m>>
Pump == Start \/ Wait \/ Take \/ Give \/ Read

Done == pc = "end"
\* at the end of the output the stream is destroyed
Stop == Done /\ UNCHANGED vars
Next == (~Done /\ (Command \/ Pump)) \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(~Done /\ Command) /\ WF_vars(~Done /\ Pump)

\* ---- properties ---------------------------------------------------------
out == Outcome(script, nin)
TypeOK == inp \in 0 .. Cap /\ outp \in 0 .. Cap /\ src \in 0 .. nin /\ got <= wrote /\ rec <= nin
\* no unit of the input is lost or given twice; none of the output is lost
Conserved == /\ lost = 0 /\ got + outp = wrote
             /\ cin => rec + inp = src - m
\* the end of the stream is reported only after the whole output was delivered
AtEof == Done => /\ got = out.out
                 /\ rec >= out.atco
                 /\ out.eofco = 1 => ceof = 1
\* the command is not told that its input ended before it did
NoEarlyEnd == ceof = 1 => rec = nin
\* nothing waits forever: the reader gets to the end of the output
Ends == <>Done

Report == Gen = 1 /\ Done =>
   PrintT(<<"TEST", ToJson([script |-> script, nin |-> nin, out |-> got, rec |-> out.rec])>>)
=============================================================================
