------------------------------- MODULE Graphs -------------------------------
(***************************************************************************)
(* Weighted undirected graphs as values, and every notion the parmcb        *)
(* properties are phrased in: cycles, components, GF(2) independence,       *)
(* shortest distances, the minimum cycle basis.                             *)
(*                                                                          *)
(* A graph is a record [n |-> number of vertices, E |-> sequence of edges], *)
(* vertices are 0..n-1, edges are named by their position in E, and an edge *)
(* is a triple <<u, v, w>>.  Sets of edges are sets of positions.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt, Functions

Vertices(g) == 0 .. (g.n - 1)
Edges(g) == 1 .. Len(g.E)
Src(g, e) == g.E[e][1]
Tgt(g, e) == g.E[e][2]
Wt(g, e) == g.E[e][3]
Ends(g, e) == {g.E[e][1], g.E[e][2]}
Other(g, e, x) == IF g.E[e][1] = x THEN g.E[e][2] ELSE g.E[e][1]
Incident(g, x) == {e \in Edges(g) : x \in Ends(g, e)}
Degree(g, x) == Cardinality(Incident(g, x))

WeightOf(g, C) == FoldSet(LAMBDA e, s : s + Wt(g, e), 0, C)
SeqSum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)

IsSimple(g) ==
    /\ \A e \in Edges(g) : Src(g, e) # Tgt(g, e)
    /\ Cardinality({Ends(g, e) : e \in Edges(g)}) = Len(g.E)
IsPositive(g) == \A e \in Edges(g) : Wt(g, e) > 0
(***************************************************************************)
(* Components, by relabelling along a set of edges.                         *)
(***************************************************************************)
CompMap(g, C) ==
    FoldLeft(LAMBDA f, e : LET a == f[Src(g, e)]
                               b == f[Tgt(g, e)]
                           IN  IF a = b THEN f
                               ELSE [x \in DOMAIN f |-> IF f[x] = a THEN b ELSE f[x]],
             [x \in Vertices(g) |-> x], SetToSeq(C))
NumComponents(g, C) == Cardinality(Range(CompMap(g, C)))
Components(g) == NumComponents(g, Edges(g))
CycleSpaceDim(g) == Len(g.E) - g.n + Components(g)
\* a set of edges is acyclic iff every edge of it merges two components
IsAcyclic(g, C) == Cardinality(C) = g.n - NumComponents(g, C)
IsSpanningForest(g, C) == IsAcyclic(g, C) /\ NumComponents(g, C) = Components(g)
(***************************************************************************)
(* Simple cycles: non-empty, every touched vertex has degree two, connected *)
(***************************************************************************)
Touched(g, C) == UNION {Ends(g, e) : e \in C}
IsSimpleCycle(g, C) ==
    /\ C # {}
    /\ C \subseteq Edges(g)
    /\ LET T == Touched(g, C)
           f == CompMap(g, C)
       IN  /\ Cardinality(T) = Cardinality(C)
           /\ \A x \in T : Cardinality({e \in C : x \in Ends(g, e)}) = 2
           /\ Cardinality({f[x] : x \in T}) = 1
(***************************************************************************)
(* GF(2).  A reduced basis is a function from pivots (largest element) to   *)
(* vectors (sets of edges) with that pivot.                                 *)
(***************************************************************************)
EmptyBasis == << >>
RECURSIVE Reduce(_, _)
Reduce(b, C) ==
    IF C = {} THEN {}
    ELSE LET p == Max(C) IN IF p \in DOMAIN b THEN Reduce(b, SymDiff(C, b[p])) ELSE C
InsertReduced(b, r) == (Max(r) :> r) @@ b          \* r # {} already reduced
IsIndependent(b, C) == Reduce(b, C) # {}
Insert(b, C) == LET r == Reduce(b, C) IN IF r = {} THEN b ELSE InsertReduced(b, r)
Rank(b) == Cardinality(DOMAIN b)
(***************************************************************************)
(* Shortest distances, infinity is INF.                                     *)
(***************************************************************************)
INF == 1000000000
Dist(g) ==
    LET Vs == Vertices(g)
        D0 == FoldSet(LAMBDA e, d :
                  LET u == Src(g, e)  v == Tgt(g, e)  w == Wt(g, e)
                  IN IF u # v /\ w < d[u][v] THEN [d EXCEPT ![u][v] = w, ![v][u] = w] ELSE d,
                  [u \in Vs |-> [v \in Vs |-> IF u = v THEN 0 ELSE INF]], Edges(g))
    IN FoldSet(LAMBDA k, d :
            [u \in Vs |-> LET duk == d[u][k] IN
                IF duk = INF THEN d[u]
                ELSE [v \in Vs |-> LET dkv == d[k][v] IN
                        IF dkv # INF /\ duk + dkv < d[u][v] THEN duk + dkv ELSE d[u][v]]],
            D0, Vs)
(***************************************************************************)
(* Some shortest path from r to every reachable vertex, as edge sets.       *)
(***************************************************************************)
PathsFrom(g, D, r) ==
    LET reach == {v \in Vertices(g) : D[r][v] # INF}
        ds == {D[r][v] : v \in reach}
        order == SetToSortSeq(ds, LAMBDA a, b : a < b)
    IN FoldLeft(LAMBDA P, x :
            P @@ [v \in {y \in reach : D[r][y] = x /\ y # r} |->
                    LET e == CHOOSE e \in Incident(g, v) :
                                LET o == Other(g, e, v)
                                IN  D[r][o] # INF /\ D[r][o] + Wt(g, e) = D[r][v]
                    IN P[Other(g, e, v)] \cup {e}],
            (r :> {}), order)
(***************************************************************************)
(* Horton candidates from arbitrary (not consistently broken) shortest path *)
(* trees, and the greedy choice among them.  MC_Graphs checks on all small  *)
(* graphs that this is the optimum over all simple cycles.                  *)
(***************************************************************************)
HortonSet(g) ==
    LET D == Dist(g) IN
    UNION {LET P == PathsFrom(g, D, r) IN
           {<<Wt(g, e) + D[r][Src(g, e)] + D[r][Tgt(g, e)],
              {e} \cup P[Src(g, e)] \cup P[Tgt(g, e)]>> :
              e \in {f \in Edges(g) : /\ Src(g, f) \in DOMAIN P
                                      /\ f \notin P[Src(g, f)] /\ f \notin P[Tgt(g, f)]
                                      /\ P[Src(g, f)] \cap P[Tgt(g, f)] = {}}}
           : r \in Vertices(g)}

\* greedy by weight subject to independence: sequence of weights in order
GreedyWeights(cands, dim) ==
    LET order == SetToSortSeq({c[1] : c \in cands}, LAMBDA a, b : a < b)
        step(acc, x) ==
            IF Len(acc.ws) = dim THEN acc
            ELSE FoldSet(LAMBDA c, a :
                    IF Len(a.ws) = dim THEN a
                    ELSE LET r == Reduce(a.b, c[2]) IN
                         IF r = {} THEN a
                         ELSE [b |-> InsertReduced(a.b, r), ws |-> Append(a.ws, c[1])],
                    acc, {c \in cands : c[1] = x})
    IN FoldLeft(step, [b |-> EmptyBasis, ws |-> << >>], order).ws

MinBasisWeights(g) ==
    LET dim == CycleSpaceDim(g) IN
    IF dim = 0 THEN << >> ELSE GreedyWeights(HortonSet(g), dim)
MinBasisWeight(g) == SeqSum(MinBasisWeights(g))

\* the definition: over all simple cycles (small graphs only)
AllSimpleCycles(g) == {C \in SUBSET Edges(g) : IsSimpleCycle(g, C)}
BruteWeights(g) ==
    GreedyWeights({<<WeightOf(g, C), C>> : C \in AllSimpleCycles(g)}, CycleSpaceDim(g))
\* the definition without the matroid argument: over all sets of simple cycles
BruteBasisWeight(g) ==
    LET dim == CycleSpaceDim(g) IN
    Min({FoldSet(LAMBDA C, s : s + WeightOf(g, C), 0, B) :
          B \in {B \in kSubset(dim, AllSimpleCycles(g)) :
                  Rank(FoldSet(LAMBDA C, b : Insert(b, C), EmptyBasis, B)) = dim}})
=============================================================================
