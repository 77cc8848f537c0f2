---------------------------- MODULE MC_Candidates ----------------------------
(* The claim behind the tree based variants, on every graph of N vertices with  *)
(* weights 1..W: with consistent (lexicographically least) shortest paths the   *)
(* candidates of the roots in any feedback vertex set, and the isometric        *)
(* candidates (classes built as in detail/cycles.hpp), are sufficient.          *)
EXTENDS Candidates
CONSTANTS N, W
VARIABLES G, done
Pairs == SetToSeq({p \in (0 .. N-1) \X (0 .. N-1) : p[1] < p[2]})
GraphFrom(f) == [n |-> N, E |-> FoldLeft(LAMBDA acc, i : IF f[i] = 0 THEN acc
                     ELSE Append(acc, <<Pairs[i][1], Pairs[i][2], f[i]>>), << >>, [i \in 1 .. Len(Pairs) |-> i])]
Init == G \in [1 .. Len(Pairs) -> 0 .. W] /\ done = FALSE

\* all simple paths between a and b, as edge sets
IsPath(g, C, a, b) == /\ C # {} /\ IsAcyclic(g, C)
                      /\ Cardinality(Touched(g, C)) = Cardinality(C) + 1
                      /\ \A x \in Touched(g, C) : Cardinality({e \in C : x \in Ends(g, e)}) = (IF x \in {a, b} THEN 1 ELSE 2)
                      /\ {a, b} \subseteq Touched(g, C)
LexLess(g, A, B) == LET na == Touched(g, A) \ Touched(g, B)  nb == Touched(g, B) \ Touched(g, A) IN
    \/ WeightOf(g, A) < WeightOf(g, B)
    \/ WeightOf(g, A) = WeightOf(g, B) /\ Cardinality(A) < Cardinality(B)
    \/ WeightOf(g, A) = WeightOf(g, B) /\ Cardinality(A) = Cardinality(B) /\ na # {} /\ nb # {} /\ Min(na) < Min(nb)
LexPath(g, a, b) == LET Ps == {C \in SUBSET Edges(g) : IsPath(g, C, a, b)}
                    IN CHOOSE A \in Ps : \A B \in Ps : B = A \/ LexLess(g, A, B)
AllLexPaths(g) == LET f == CompMap(g, Edges(g)) IN
    [a \in Vertices(g) |-> [b \in {x \in Vertices(g) : f[x] = f[a]} |-> IF a = b THEN {} ELSE LexPath(g, a, b)]]
\* candidates of root r
Cands(g, P, r) == {<<WeightOf(g, {e} \cup P[r][Src(g, e)] \cup P[r][Tgt(g, e)]), {e} \cup P[r][Src(g, e)] \cup P[r][Tgt(g, e)]>> :
    e \in {x \in Edges(g) : /\ Src(g, x) \in DOMAIN P[r]
                            /\ x \notin P[r][Src(g, x)] /\ x \notin P[r][Tgt(g, x)]
                            /\ P[r][Src(g, x)] \cap P[r][Tgt(g, x)] = {}}}
\* isometric: between any two vertices of the cycle, the chosen path is part of it
Isometric(g, P, C) == \A a, b \in Touched(g, C) : P[a][b] \subseteq C

Agree(g) ==
    LET P == AllLexPaths(g)
        H == UNION {Cands(g, P, r) : r \in Vertices(g)}
        opt == BruteWeights(g)
    IN  /\ \A a \in Vertices(g) : ConsistentWith(P, a, P[a])
        /\ SubPaths(g, P)
        /\ Sufficient(g, H, opt)
        /\ \A X \in SUBSET Vertices(g) : IsAcyclic(g, Without(g, X)) =>
              Sufficient(g, UNION {Cands(g, P, r) : r \in X}, opt)
        /\ Sufficient(g, {c \in H : Isometric(g, P, c[2])}, opt)
Next == ~done /\ Assert(Agree(GraphFrom(G)), GraphFrom(G)) /\ done' = TRUE /\ UNCHANGED G
=============================================================================
