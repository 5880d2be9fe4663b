----------------------------- MODULE BufferedGen -----------------------------
(* Behaviours of the buffered stream model as test scripts: the calls and   *)
(* the amounts the source delivered at each refill.                          *)
EXTENDS BufferedStream, Json
CONSTANT Depth
VARIABLES hist, sched
gvars == <<vars, hist, sched>>
Call(x) == hist' = Append(hist, x) /\ UNCHANGED sched
GInit == Init /\ hist = <<>> /\ sched = <<>>
GStep == \/ \E min \in 1..MaxMin, max \in 0..MaxMax : ReadStart(min, max) /\ Call(<<"r", min, max>>)
         \/ Refill /\ sched' = Append(sched, src' - src) /\ UNCHANGED hist
         \/ FillDone /\ UNCHANGED <<hist, sched>>
         \/ \E k \in 0..MaxSkip : SkipStart(k) /\ Call(<<"k", k>>)
         \/ SkipStep /\ UNCHANGED <<hist, sched>>
         \/ \E p \in 0..(Len0 + 1) : Reset(p) /\ Call(<<"z", p>>)
GNext == /\ Len(hist) < Depth \/ op # Idle
         /\ GStep
         /\ IF Len(hist') = Depth /\ op' = Idle
            THEN PrintT(<<"TEST", ToJson([L |-> Len0, buf |-> InitBuf, known |-> Declared, fault |-> FaultAt,
                                          ops |-> hist', sched |-> sched'])>>)
            ELSE TRUE
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
