----------------------------- MODULE MC_Headers -----------------------------
(* If every header compiles alone and links with itself, every program links: the reduction behind the check. *)
EXTENDS Headers, TLC
CONSTANTS N, Names, Syms, MaxLen
VARIABLES H, p
vars == <<H, p>>
Header == [needs : SUBSET Names, gives : SUBSET Names, defs : SUBSET Syms]
Init == H \in {f \in [1..N -> Header] : SelfContained(f)} /\ p = << << >>, << >> >>
Add(k) == /\ Len(p[k]) < MaxLen /\ \E h \in 1..N : p' = [p EXCEPT ![k] = Append(@, h)] /\ UNCHANGED H
Next == Add(1) \/ Add(2)
Spec == Init /\ [][Next]_vars
AllLink == Links(H, p)
=============================================================================
