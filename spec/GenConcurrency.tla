--------------------------- MODULE GenConcurrency ---------------------------
(* histories of calls: set (from which unit, from which thread), library calls, queries *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Len_, Ns, Exhaustive
VARIABLES h, fin
Ops == [op : {"Set"}, n : Ns, unit : {0, 1}, thread : {0, 1}] \cup [op : {"Call"}, n : {0, 1, 2, 3, 4, 5}, unit : {0}, thread : {0, 1}]
       \cup [op : {"Query"}, n : {0}, unit : {0, 1}, thread : {0, 1}]
Init == h = << >> /\ fin = FALSE
Next == \/ Len(h) < Len_ /\ ~fin /\ \E o \in Ops : h' = Append(h, o) /\ UNCHANGED fin
        \/ Len(h) = Len_ /\ ~fin /\ fin' = TRUE /\ PrintT("HIST " \o ToJson(h)) /\ UNCHANGED h
Spec == Init /\ [][Next]_<<h, fin>>
=============================================================================
