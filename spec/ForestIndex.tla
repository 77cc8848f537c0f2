----------------------------- MODULE ForestIndex -----------------------------
(* The edge numbering of forestindex.hpp: BFS forest, then one pass over the   *)
(* edges with a counter for off-forest and one for forest edges.               *)
EXTENDS Graphs

\* the property: idx maps positions of edges to 0..m-1, back is its inverse
IndexOK(g, idx, back, on, dim, comp) ==
    LET m == Len(g.E) IN
    /\ comp = Components(g)
    /\ dim = CycleSpaceDim(g)
    /\ Len(idx) = m /\ Len(back) = m /\ Len(on) = m
    /\ {idx[e] : e \in 1 .. m} = 0 .. (m - 1)
    /\ \A e \in 1 .. m : back[idx[e] + 1] = e
    /\ \A e \in 1 .. m : (on[e] = 0) <=> (idx[e] < dim)
    /\ IsSpanningForest(g, {e \in 1 .. m : on[e] = 1})
=============================================================================
