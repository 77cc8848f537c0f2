----------------------------- MODULE GenHeaders -----------------------------
(* programs over headers 1..N: units of up to L headers, in configurations tbb, mpi *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, L, U
VARIABLES p, cfg, fin
Init == p = << << >> >> /\ cfg \in [tbb : {0, 1}, mpi : {0, 1}] /\ fin = FALSE
Add == ~fin /\ Len(p[Len(p)]) < L /\ \E h \in 1..N : p' = [p EXCEPT ![Len(p)] = Append(@, h)] /\ UNCHANGED <<cfg, fin>>
Unit == ~fin /\ Len(p) < U /\ p[Len(p)] # << >> /\ p' = Append(p, << >>) /\ UNCHANGED <<cfg, fin>>
Fin == ~fin /\ Len(p) > 1 /\ p[Len(p)] # << >> /\ fin' = TRUE /\ PrintT("HIST " \o ToJson([units |-> p, cfg |-> cfg])) /\ UNCHANGED <<p, cfg>>
Next == Add \/ Unit \/ Fin
Spec == Init /\ [][Next]_<<p, cfg, fin>>
=============================================================================
