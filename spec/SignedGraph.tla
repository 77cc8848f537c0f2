---------------------------- MODULE SignedGraph ----------------------------
(***************************************************************************)
(* The signed graph of a support vector S: two copies x and x + n of every  *)
(* vertex; an edge of S changes the copy, any other edge stays in it.       *)
(* Paths from x to x + n are the closed walks through x that use S an odd   *)
(* number of times.  H is a set of hidden edges.                            *)
(***************************************************************************)
EXTENDS Graphs

Node(g, x, positive) == IF positive THEN x ELSE x + g.n
Across(g, S, e, a) == \* the other end of e in the signed graph, from node a
    LET x == IF a >= g.n THEN a - g.n ELSE a
        y == Other(g, e, x)
    IN  IF (a >= g.n) # (e \in S) THEN y + g.n ELSE y
Plain(g, a) == IF a >= g.n THEN a - g.n ELSE a

\* distances from node a without the edges of H: relaxation until nothing changes
RECURSIVE Relax(_, _, _, _)
Relax(g, S, es, d) ==
    LET d2 == FoldSet(LAMBDA e, f : FoldSet(LAMBDA a, h :
                    LET b == Across(g, S, e, a) IN
                    IF h[a] # INF /\ h[a] + Wt(g, e) < h[b] THEN [h EXCEPT ![b] = h[a] + Wt(g, e)] ELSE h,
                f, {Src(g, e), Tgt(g, e), Src(g, e) + g.n, Tgt(g, e) + g.n}), d, es)
    IN  IF d2 = d THEN d ELSE Relax(g, S, es, d2)
SignedDist(g, S, H, a) == Relax(g, S, Edges(g) \ H, [b \in 0 .. 2 * g.n - 1 |-> IF b = a THEN 0 ELSE INF])

\* the weight of the lightest cycle that is odd in S (INF if there is none)
MinOddWeight(g, S) == Min({INF} \cup {SignedDist(g, S, {}, x)[x + g.n] : x \in Vertices(g)})

OddIn(C, S) == Cardinality(C \cap S) % 2 = 1
OddDegree(g, C) == {x \in Vertices(g) : Cardinality(C \cap Incident(g, x)) % 2 = 1}

(***************************************************************************)
(* What a search may answer.  The algorithms search in two ways:            *)
(*   "v": from (x,+) to (x,-), nothing hidden;                              *)
(*   "e": from (u,+) to (v,+) for a signed edge e = uv that is hidden       *)
(*        together with others.                                             *)
(* d is the distance between the ends, M the weight of the lightest odd     *)
(* cycle, lim the limit (0: none): an answer is only wanted below it.       *)
(* A shortest path may use an edge in both copies; then it is no answer,    *)
(* and then it is longer than the lightest odd cycle.                       *)
(***************************************************************************)
Answer(g, S, H, mode, e, a, b, lim, d, M, found, C, w) ==
    LET more == IF mode = "e" THEN Wt(g, e) ELSE 0 IN
    IF found
    THEN /\ C \subseteq Edges(g) \ H
         /\ WeightOf(g, C) = d /\ w = d
         /\ lim # 0 => d < lim
         /\ OddIn(C, S) = (mode = "v")
         /\ OddDegree(g, C) = IF mode = "v" THEN {} ELSE Ends(g, e)
    ELSE d = INF \/ (lim # 0 /\ d >= lim) \/ d + more > M

\* so that a search that meets the minimum returns a lightest odd cycle
Lightest(g, S, mode, e, lim, d, M, found, C) ==
    LET more == IF mode = "e" THEN Wt(g, e) ELSE 0
        D == IF mode = "e" THEN C \cup {e} ELSE C IN
    d # INF /\ d + more = M /\ (lim = 0 \/ d < lim) =>
        found /\ IsSimpleCycle(g, D) /\ OddIn(D, S)
=============================================================================
