------------------------------ MODULE GenDemo ------------------------------
(* every option combination of the four programs, one behaviour each *)
EXTENDS Integers, Sequences, TLC, Json
B == {0, 1}
Cores == {-1, 0, 1, 2, 3, 5, 16}
Alg == [signed : B \cup {-1}, fvs : B, iso : B]
Configs ==
    [prog : {"mcb"}, alg : Alg, par : B \cup {-1}, cores : Cores, verbose : B, print : B, k : {0}, P : {1}]
    \cup [prog : {"approx"}, alg : Alg, par : B \cup {-1}, cores : Cores, verbose : B, print : B, k : {-1, 2, 3, 4, 9}, P : {1}]
    \cup [prog : {"mpi"}, alg : Alg, par : {0}, cores : {-1}, verbose : B, print : B, k : {0}, P : 1..8]
    \cup [prog : {"stats"}, alg : {[signed |-> 0, fvs |-> 0, iso |-> 0]}, par : {0}, cores : {-1}, verbose : B, print : {0}, k : {0}, P : {1}]
VARIABLES c, fin
Init == c \in Configs /\ fin = FALSE
Next == ~fin /\ fin' = TRUE /\ PrintT("HIST " \o ToJson(c)) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, fin>>
=============================================================================
