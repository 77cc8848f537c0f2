------------------------------ MODULE MC_Spanner ------------------------------
(* The greedy scan and the approximate basis on every graph of N vertices      *)
(* with weights 1..W, every tie order, every choice of lightest closing path.  *)
EXTENDS Spanner
CONSTANTS N, W, K
VARIABLES G, k, todo, kept, dropped, closing, pc
mvars == <<G, k, todo, kept, dropped, closing, pc>>

Pairs == SetToSeq({p \in (0 .. N-1) \X (0 .. N-1) : p[1] < p[2]})
GraphFrom(f) == [n |-> N, E |-> FoldLeft(LAMBDA acc, i : IF f[i] = 0 THEN acc
                     ELSE Append(acc, <<Pairs[i][1], Pairs[i][2], f[i]>>), << >>, [i \in 1 .. Len(Pairs) |-> i])]
Init == /\ \E f \in [1 .. Len(Pairs) -> 0 .. W] : G = GraphFrom(f)
        /\ k \in K
        /\ todo = Edges(G) /\ kept = {} /\ dropped = {} /\ closing = {} /\ pc = "scan"

Scan == /\ pc = "scan" /\ todo # {}
        /\ \E e \in {x \in todo : \A y \in todo : Wt(G, x) <= Wt(G, y)} :
              /\ todo' = todo \ {e}
              /\ IF Within(G, kept, Src(G, e), Tgt(G, e), Bound(G, k))
                 THEN dropped' = dropped \cup {e} /\ UNCHANGED kept
                 ELSE kept' = kept \cup {e} /\ UNCHANGED dropped
        /\ UNCHANGED <<G, k, closing, pc>>
ScanDone == pc = "scan" /\ todo = {} /\ pc' = "close" /\ UNCHANGED <<G, k, todo, kept, dropped, closing>>

\* paths of least weight: simple cycles through e in kept + e, of least weight
Closings(e) == LET Cs == {C \in SUBSET (kept \cup {e}) : e \in C /\ IsSimpleCycle(G, C)}
                   m == Min({WeightOf(G, C) : C \in Cs})
               IN {C \in Cs : WeightOf(G, C) = m}
Close == /\ pc = "close"
         /\ \E e \in dropped : /\ \A C \in closing : e \notin C
                               /\ \E C \in Closings(e) : closing' = closing \cup {C}
         /\ UNCHANGED <<G, k, todo, kept, dropped, pc>>
CloseDone == pc = "close" /\ Cardinality(closing) = Cardinality(dropped) /\ pc' = "done"
             /\ UNCHANGED <<G, k, todo, kept, dropped, closing>>
Next == Scan \/ ScanDone \/ Close \/ CloseDone
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)

\* C15, at every moment of the scan for what has been scanned
SpannerInv == /\ Stretch(G, k, kept, dropped) /\ Girth(G, k, kept)
              /\ kept \cap dropped = {} /\ kept \cup dropped = Edges(G) \ todo
Opt(gr) == SeqSum(MinBasisWeights(gr))
Total == Opt(SubGraph(G, kept)) + FoldSet(LAMBDA C, s : s + WeightOf(G, C), 0, closing)
\* C05: count; C06: bound
Count == pc = "done" => CycleSpaceDim(SubGraph(G, kept)) + Cardinality(dropped) = CycleSpaceDim(G)
Independent == pc = "done" =>
    LET K0 == {C \in SUBSET kept : IsSimpleCycle(G, C)}
    IN Rank(FoldSet(LAMBDA C, b : Insert(b, C), EmptyBasis, K0 \cup closing)) = CycleSpaceDim(G)
Approx == pc = "done" => Total <= (2 * k - 1) * Opt(G)
ExactForOne == pc = "done" /\ k = 1 => Total = Opt(G)
\* hop distances by definition: a connecting set of at most h edges
WithinByDef(a, b, h) == \E C \in SUBSET kept : Cardinality(C) <= h /\ CompMap(G, C)[a] = CompMap(G, C)[b]
HopsOK == pc = "close" /\ closing = {} =>
    \A a, b \in Vertices(G) : \A h \in 1 .. 4 : Within(G, kept, a, b, h) = WithinByDef(a, b, h)
Terminates == <>(pc = "done")
=============================================================================
