------------------------------ MODULE Candidates ------------------------------
(* Horton's candidate cycles and their FVS and isometric sub-collections.        *)
EXTENDS LexTrees, FVS

\* vertices along a sequence of edges starting at x, following each edge to its other end
RECURSIVE Walk(_, _, _)
Walk(g, x, s) == IF s = << >> THEN <<x>>
                 ELSE IF Head(s) \in Edges(g) /\ x \in Ends(g, Head(s))
                      THEN <<x>> \o Walk(g, Other(g, Head(s), x), Tail(s))
                      ELSE <<x, -1>>

\* root r, non-tree edge e, p and q the root paths of its ends (listed from the end to the root), weight w
CandidateOK(g, r, e, p, q, w) ==
    /\ e \in Edges(g)
    /\ LET a == Walk(g, Src(g, e), p)
           b == Walk(g, Tgt(g, e), q)
           C == {e} \cup ToSet(p) \cup ToSet(q)
       IN  /\ -1 \notin ToSet(a) \cup ToSet(b)
           /\ a[Len(a)] = r /\ b[Len(b)] = r
           /\ ToSet(a) \cap ToSet(b) = {r}
           /\ Cardinality(ToSet(a)) = Len(a) /\ Cardinality(ToSet(b)) = Len(b)
           /\ IsSimpleCycle(g, C) /\ r \in Touched(g, C)
           /\ w = WeightOf(g, C)
\* cands: set of <<weight, edges>>
Sufficient(g, cands, opt) == GreedyWeights(cands, CycleSpaceDim(g)) = opt
=============================================================================
