------------------------------ MODULE MC_Graphs ------------------------------
(* The oracle itself: on every labelled graph with at most N vertices and     *)
(* weights 1..W, the Horton/greedy optimum equals the optimum by definition.  *)
EXTENDS Graphs
CONSTANTS N, W, Deep    \* Deep: also compare with the minimum over all sets of cycles
VARIABLES G, done

Pairs == SetToSeq({p \in (0 .. N-1) \X (0 .. N-1) : p[1] < p[2]})
GraphFrom(f) ==   \* f: pair index -> weight, 0 = absent
    [n |-> N, E |-> FoldLeft(LAMBDA acc, i : IF f[i] = 0 THEN acc
                                             ELSE Append(acc, <<Pairs[i][1], Pairs[i][2], f[i]>>),
                             << >>, [i \in 1 .. Len(Pairs) |-> i])]
Init == G \in [1 .. Len(Pairs) -> 0 .. W] /\ done = FALSE

Agree(g) ==
    LET dim == CycleSpaceDim(g)
        ws == MinBasisWeights(g)
    IN  /\ Len(ws) = dim
        /\ ws = BruteWeights(g)
        /\ Deep => SeqSum(ws) = BruteBasisWeight(g)
        /\ \A c \in HortonSet(g) : IsSimpleCycle(g, c[2]) /\ c[1] = WeightOf(g, c[2])
        \* the cycle space has dimension m - n + c: all simple cycles span exactly that
        /\ Rank(FoldSet(LAMBDA C, b : Insert(b, C), EmptyBasis, AllSimpleCycles(g))) = dim
        \* Reduce decides independence: a basis spans exactly 2^rank sets
        /\ Deep => Cardinality(FoldSet(LAMBDA C, S : S \cup {SymDiff(C, X) : X \in S}, {{}}, AllSimpleCycles(g))) = 2^dim
        \* distances by definition: no path is shorter, and PathsFrom realises them
        /\ LET D == Dist(g) IN \A r \in Vertices(g) :
              LET P == PathsFrom(g, D, r) IN
              /\ DOMAIN P = {v \in Vertices(g) : D[r][v] # INF}
              /\ \A v \in DOMAIN P : WeightOf(g, P[v]) = D[r][v]
              /\ \A e \in Edges(g) : D[r][Src(g, e)] # INF =>
                    D[r][Tgt(g, e)] <= D[r][Src(g, e)] + Wt(g, e)

Next == ~done /\ Assert(Agree(GraphFrom(G)), GraphFrom(G)) /\ done' = TRUE /\ UNCHANGED G
=============================================================================
