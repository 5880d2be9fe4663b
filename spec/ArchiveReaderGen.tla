-------------------------- MODULE ArchiveReaderGen --------------------------
(* Histories of calls on an ArchiveReader, as tests.                         *)
EXTENDS ArchiveReader, Json
CONSTANT Depth
VARIABLE hist
GInit == Init /\ hist = <<>>
Call(x) == hist' = Append(hist, x)
Step1 == \/ \E l \in Listers : \E u \in Urls : Ls(l, u) /\ Call(<<"ls", l, u>>)
         \/ \E l \in Listers : Nx(l) /\ Call(<<"nx", l>>)
         \/ \E l \in Listers : Del(l) /\ Call(<<"del", l>>)
         \/ \E l, m \in Listers : Cp(l, m) /\ Call(<<"cp", m, l>>)
         \/ \E u \in Urls : Stat(u) /\ Call(<<"stat", u>>)
         \/ \E u \in Urls : IsA(u) /\ Call(<<"isa", u>>)
         \/ Touch /\ Call(<<"touch">>)
         \/ Rm /\ Call(<<"rm">>)
GNext == /\ Len(hist) < Depth /\ Step1
         /\ IF Len(hist') = Depth THEN PrintT(<<"TEST", ToJson([world |-> World, ops |-> hist'])>>) ELSE TRUE
GSpec == GInit /\ [][GNext]_<<vars, hist>>
=============================================================================
