------------------------------ MODULE GenFpField ------------------------------
(* Behaviours of the vector part of FpField as operation histories. *)
EXTENDS FpField, Json, TLC
CONSTANTS NR, Dim, L, Ps, Scalars      \* scalars are shifted by 8: configuration files have no negative numbers
Regs == 1..NR
AllOps == [op : {"new"}, r : Regs, p : {Big(p) : p \in Ps}] \cup [op : {"unit"}, r : Regs, i : 0..Dim-1]
    \cup [op : {"clear"}, r : Regs] \cup [op : {"copy", "move", "asg", "masg", "ser", "pluseq", "dot"}, r : Regs, s : Regs]
    \cup [op : {"plus"}, r : Regs, s : Regs, t : Regs] \cup [op : {"scale"}, r : Regs, s : Regs, a : {Big(k - 8) : k \in Scalars}]
    \cup [op : {"scaleeq"}, r : Regs, a : {Big(k - 8) : k \in Scalars}]
VARIABLES reg, hist, fin
\* start with one modulus everywhere, units placed: the empty vector is a dull place
Init == \E p \in Ps : reg = [r \in Regs |-> [p |-> Big(p), v |-> {<<0, One>>}]]
           /\ hist = [j \in 1..2*NR |-> IF j <= NR THEN [op |-> "new", r |-> j, p |-> Big(p)] ELSE [op |-> "unit", r |-> j - NR, i |-> 0]]
           /\ fin = FALSE
Grow == /\ Len(hist) < L + 2*NR /\ UNCHANGED fin
        /\ \E o \in AllOps : OpEnabled(reg, o) /\ reg' = OpReg(reg, o) /\ hist' = Append(hist, o)
Next == Grow \/ (Len(hist) = L + 2*NR /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<reg, hist>>)
Spec == Init /\ [][Next]_<<reg, hist, fin>>
Emit == fin => PrintT("HIST " \o ToJson(hist))
=============================================================================
