---------------------------- MODULE TraceProvider ----------------------------
(* Checks recorded iterations of the archive decoders against               *)
(* ProviderContract, and every call on their entries against StreamContract.*)
EXTENDS TraceStream, ProviderContract

VARIABLES P,     \* providers of the current scenario by name
          Q      \* outcomes by key, that must not depend on the source

ESt(e) == e.p \o ".e"
PFails(e) ==
  CASE e.ev = "pnew" -> IF Assert(LayoutOk(e.m), <<"inconsistent archive model", e.m>>)
                        THEN When(e.st = Err /\ e.err # 1, "N8-message")
                             \cup When(e.st = Err /\ e.m.end = "clean" /\ e.m.cut >= e.m.total /\ e.m.flt = 0, "N6-clean-end")
                             \cup When(e.st # Err /\ e.m.end = "rejected", "H2-rejected")
                        ELSE {}
    [] e.ev = "next" -> IF e.p \in DOMAIN P THEN NextFails(P[e.p], e) ELSE {}
    [] e.ev = "walk" -> WalkFails(e)
    [] e.ev = "hdr" -> When(e.want # "any" /\ e.r # (IF e.want = "yes" THEN 1 ELSE 0), "H1-recognition")
    [] e.ev = "mailhdr" -> IF e.p \in DOMAIN P
                           THEN {"M1-" \o f : f \in {g \in DOMAIN P[e.p].m.hdr : P[e.p].m.hdr[g] # e[g]}}
                           ELSE {}
    [] e.ev = "sig" -> When(e.key \in DOMAIN Q /\ Q[e.key] # e.sig, "Q1-source-independent")
    [] OTHER -> Fails(e)

PAfterS(e) ==
  CASE e.ev = "next" ->
         IF e.p \in DOMAIN P /\ e.ret = 1 THEN Put(S, ESt(e), EntryStream(P[e.p], e))
         ELSE [x \in DOMAIN S \ {ESt(e)} |-> S[x]]
    [] OTHER -> After(e)
PAfterP(e) ==
  CASE e.ev = "scn" -> <<>>
    [] e.ev = "pnew" -> Put(P, e.p, NewProvider(e))
    [] e.ev = "next" -> IF e.p \in DOMAIN P THEN Put(P, e.p, NextProvider(P[e.p], e)) ELSE P
    [] OTHER -> P
PAfterQ(e) ==
  CASE e.ev = "scn" -> <<>>
    [] e.ev = "sig" -> Put(Q, e.key, e.sig)
    [] OTHER -> Q

PInit == Init /\ P = <<>> /\ Q = <<>>
PNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] f == PFails(e) IN
              /\ S' = PAfterS(e) /\ P' = PAfterP(e) /\ Q' = PAfterQ(e)
              /\ l' = l + 1
              /\ IF f = {} THEN TRUE ELSE PrintT(<<"FAIL", l, f>>)
PSpec == PInit /\ [][PNext]_<<l, S, P, Q>>
=============================================================================
