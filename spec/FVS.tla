--------------------------------- MODULE FVS ---------------------------------
(* Feedback vertex sets, and the greedy construction of detail/fvs.hpp.        *)
EXTENDS Graphs
Without(g, X) == {e \in Edges(g) : Ends(g, e) \cap X = {}}
\* s is the sequence of emitted vertices
FVSOK(g, s) ==
    LET X == ToSet(s) IN
    /\ X \subseteq Vertices(g)
    /\ Cardinality(X) = Len(s)
    /\ IsAcyclic(g, Without(g, X))
    /\ CycleSpaceDim(g) = 0 => s = << >>
=============================================================================
