--------------------------- MODULE TraceCandidates ---------------------------
(* Candidate collections recorded from the three builders, in the order         *)
(* Horton, FVS, isometric; one event per candidate.                             *)
EXTENDS Candidates, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, coll, cands, horton, opt
tvars == <<tid, l, coll, cands, horton, opt>>
T == Traces[tid]
GR == [n |-> T.n, E |-> T.E]
TInit == tid \in DOMAIN Traces /\ l = 0 /\ coll = "none" /\ cands = {} /\ horton = {} /\ opt = << >>
TLoad == l = 0 /\ l' = 1 /\ opt' = MinBasisWeights(GR) /\ UNCHANGED <<tid, coll, cands, horton>>
Ev(op) == l >= 1 /\ l <= Len(T.ev) /\ T.ev[l].op = op /\ l' = l + 1 /\ UNCHANGED <<tid, opt>>
TBegin == Ev("Begin") /\ coll = "none" /\ coll' = T.ev[l].coll /\ cands' = {} /\ UNCHANGED horton
TCand == /\ Ev("Cand") /\ coll # "none"
         /\ LET e == T.ev[l] IN
            /\ CandidateOK(GR, e.r, e.e, e.p, e.q, e.w)
            /\ LET C == {e.e} \cup ToSet(e.p) \cup ToSet(e.q) IN
               /\ coll # "horton" => C \in horton
               /\ cands' = cands \cup {<<e.w, C>>}
         /\ UNCHANGED <<coll, horton>>
TEnd == /\ Ev("End") /\ coll # "none"
        /\ Sufficient(GR, cands, opt)
        /\ horton' = IF coll = "horton" THEN {c[2] : c \in cands} ELSE horton
        /\ coll' = "none" /\ UNCHANGED cands
TDone == l > Len(T.ev) /\ coll = "none" /\ UNCHANGED tvars
TSpec == TInit /\ [][TLoad \/ TBegin \/ TCand \/ TEnd \/ TDone]_tvars
=============================================================================
