------------------------------- MODULE Spanner -------------------------------
(***************************************************************************)
(* The greedy (2k-1)-spanner of detail/approx_spanner.hpp and the basis     *)
(* built from it.  Edges are scanned by non-decreasing weight, ties in any  *)
(* order; an edge is kept unless its ends are within 2k-1 hops in what has  *)
(* been kept.  Afterwards the exact algorithm runs on the kept edges and    *)
(* every dropped edge is closed by a lightest kept path.                    *)
(***************************************************************************)
EXTENDS Graphs

\* hop distance between a and b over the edges F, or bound+1 when larger
RECURSIVE HopsFrom(_, _, _, _, _, _)
HopsFrom(gr, F, frontier, visited, b, left) ==
    IF b \in visited THEN 0
    ELSE IF left = 0 \/ frontier = {} THEN left + 1
    ELSE LET next == {x \in Vertices(gr) \ visited :
                        \E e \in F : x \in Ends(gr, e) /\ Other(gr, e, x) \in frontier}
         IN 1 + HopsFrom(gr, F, next, visited \cup next, b, left - 1)
Hops(gr, F, a, b, bound) == HopsFrom(gr, F, {a}, {a}, b, bound)
Within(gr, F, a, b, bound) == Hops(gr, F, a, b, bound) <= bound

\* hop bound, cut off at n: no path has n or more edges
Bound(gr, k) == IF k < 0 \/ 2 * k - 1 > gr.n THEN gr.n ELSE 2 * k - 1

Cheap(gr, F, w) == {e \in F : Wt(gr, e) <= w}

\* the clauses of the spanner property
Stretch(gr, k, kept, dropped) ==
    \A e \in dropped : Within(gr, Cheap(gr, kept, Wt(gr, e)), Src(gr, e), Tgt(gr, e), Bound(gr, k))
Girth(gr, k, kept) ==
    \A e \in kept : ~Within(gr, kept \ {e}, Src(gr, e), Tgt(gr, e), Bound(gr, k))
Partition(gr, kept, dropped) == kept \cup dropped = Edges(gr) /\ kept \cap dropped = {}
SpannerOK(gr, k, kept, dropped) ==
    /\ Partition(gr, kept, dropped)
    /\ Stretch(gr, k, kept, dropped)
    /\ Girth(gr, k, kept)

SubGraph(gr, kept) == LET s == SetToSeq(kept) IN [n |-> gr.n, E |-> [i \in DOMAIN s |-> gr.E[s[i]]]]
=============================================================================
