------------------------------ MODULE GenGF2Vec ------------------------------
(* Behaviours of GF2Vec as operation histories, to be replayed into SpVecGF2. *)
EXTENDS GF2Vec, SequencesExt, Json, TLC
CONSTANTS NR, Dim, L, MaxCard
Regs == 1..NR
D == 0..Dim - 1
Sets == {SetToSortSeq(S, <) : S \in {X \in SUBSET D : Cardinality(X) <= MaxCard}}
VARIABLES reg, hist, fin       \* fin: printed (simulation evaluates invariants on every candidate successor)
Init == reg = [r \in Regs |-> {}] /\ hist = << >> /\ fin = FALSE
Grow == /\ Len(hist) < L /\ UNCHANGED fin
        /\ \E o \in AllOps(Regs, D, Sets) :
            /\ OpEnabled(reg, o) /\ reg' = OpReg(reg, o) /\ hist' = Append(hist, o)
Next == Grow \/ (Len(hist) = L /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<reg, hist>>)
Spec == Init /\ [][Next]_<<reg, hist, fin>>
Emit == fin => PrintT("HIST " \o ToJson(hist))
=============================================================================
