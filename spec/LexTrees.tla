------------------------------- MODULE LexTrees -------------------------------
(***************************************************************************)
(* Consistent shortest path trees (detail/lex_dijkstra.hpp, sptrees.hpp).   *)
(* A tree is a function from reached vertices to [w, pred, first]; the      *)
(* library builds one per root.                                             *)
(***************************************************************************)
EXTENDS Graphs

\* the edges of the root path of every node of a tree, following predecessor edges; a tree with a
\* predecessor edge that does not lead strictly towards the root has no paths
TreePaths(g, D, r, t) ==
    LET order == SetToSortSeq({D[r][v] : v \in DOMAIN t}, LAMBDA a, b : a < b)
    IN FoldLeft(LAMBDA P, x :
          P @@ [v \in {y \in DOMAIN t : D[r][y] = x /\ y # r} |-> P[Other(g, t[v].pred, v)] \cup {t[v].pred}],
          (r :> {}), order)

\* one tree on its own: exact distances, predecessor edges that realise them, first vertices
TreeOK(g, D, r, t) ==
    /\ DOMAIN t = {v \in Vertices(g) : D[r][v] # INF}
    /\ \A v \in DOMAIN t :
          /\ t[v].w = D[r][v]
          /\ IF v = r THEN t[v].w = 0
             ELSE /\ t[v].pred \in Edges(g)
                  /\ v \in Ends(g, t[v].pred)
                  /\ LET u == Other(g, t[v].pred, v)
                     IN  /\ u \in DOMAIN t
                         /\ D[r][u] + Wt(g, t[v].pred) = D[r][v]
                         /\ t[v].first = IF u = r THEN v ELSE t[u].first

\* trees that were chosen consistently: P maps roots to their root paths
ConsistentWith(P, r, paths) ==
    \A s \in DOMAIN P : IF s \in DOMAIN paths THEN r \in DOMAIN P[s] /\ P[s][r] = paths[s]
                                              ELSE r \notin DOMAIN P[s]
\* sub-paths: with reversal and prefixes (a tree path to an inner vertex is a prefix) this follows;
\* stated on its own for the design check
SubPaths(g, P) ==
    \A r \in DOMAIN P : \A v \in DOMAIN P[r] :
        LET inner == Touched(g, P[r][v]) IN
        \A x, y \in inner : x \in DOMAIN P /\ y \in DOMAIN P[x] => P[x][y] \subseteq P[r][v]
=============================================================================
