--------------------------------- MODULE SVA ---------------------------------
(***************************************************************************)
(* The phases of the support vector algorithm shared by the signed-graph    *)
(* and the tree based variants (parmcb_sva_signed.hpp, parmcb_sva_trees.hpp,*)
(* and their TBB and MPI versions).                                         *)
(*                                                                          *)
(* Abstracted: how a minimum odd cycle is found (any of them may be picked, *)
(* SignedSearch and Candidates refine that) and which of the remaining      *)
(* support vectors is swapped to position k (any may be).                   *)
(* SVA refines CycleBasis with every clause enforced.                       *)
(***************************************************************************)
EXTENDS Graphs
CONSTANTS N, W

VARIABLES G,        \* input graph
          offs,     \* sequence: off-forest edges, the coordinates of the support vectors
          S,        \* support vectors, sets of edges
          k,        \* phase
          pc,       \* "start", "swap", "cycle", "done"
          cycles,   \* emitted so far
          total     \* accumulated weight

svars == <<G, offs, S, k, pc, cycles, total>>

Pairs == SetToSeq({p \in (0 .. N-1) \X (0 .. N-1) : p[1] < p[2]})
GraphFrom(f) == [n |-> N, E |-> FoldLeft(LAMBDA acc, i : IF f[i] = 0 THEN acc
                     ELSE Append(acc, <<Pairs[i][1], Pairs[i][2], f[i]>>), << >>, [i \in 1 .. Len(Pairs) |-> i])]

\* a spanning forest: greedily, in edge order
ForestOf(g) == FoldLeft(LAMBDA F, e : IF IsAcyclic(g, F \cup {e}) THEN F \cup {e} ELSE F, {}, [e \in Edges(g) |-> e])

Init == /\ \E f \in [1 .. Len(Pairs) -> 0 .. W] : G = GraphFrom(f)
        /\ offs = << >> /\ S = << >> /\ k = 1 /\ pc = "start" /\ cycles = << >> /\ total = 0

Start == /\ pc = "start"
         /\ offs' = SetToSeq(Edges(G) \ ForestOf(G))
         /\ S' = [i \in 1 .. CycleSpaceDim(G) |-> {offs'[i]}]
         /\ pc' = IF Len(S') = 0 THEN "done" ELSE "swap"
         /\ UNCHANGED <<G, k, cycles, total>>

\* "choose the sparsest support heuristic": any remaining vector
Swap == /\ pc = "swap"
        /\ \E r \in k .. Len(S) : S' = [S EXCEPT ![k] = S[r], ![r] = S[k]]
        /\ pc' = "cycle"
        /\ UNCHANGED <<G, offs, k, cycles, total>>

Odd(a, b) == Cardinality(a \cap b) % 2 = 1
OddCycles(s) == {C \in AllSimpleCycles(G) : Odd(C, s)}
MinOdd(s) == LET O == OddCycles(s)
                 m == Min({WeightOf(G, C) : C \in O})
             IN {C \in O : WeightOf(G, C) = m}

Phase == /\ pc = "cycle"
         /\ \E C \in MinOdd(S[k]) :
               /\ cycles' = Append(cycles, C)
               /\ total' = total + WeightOf(G, C)
               /\ S' = [l \in DOMAIN S |-> IF l > k /\ Odd(C, S[l]) THEN SymDiff(S[l], S[k]) ELSE S[l]]
         /\ k' = k + 1
         /\ pc' = IF k' > Len(S) THEN "done" ELSE "swap"
         /\ UNCHANGED <<G, offs>>

Next == Start \/ Swap \/ Phase
Spec == Init /\ [][Next]_svars /\ WF_svars(Next)

\* ---------------------------------------------------------------- properties
TypeOK == /\ \A i \in DOMAIN S : S[i] \subseteq Edges(G)
          /\ k \in 1 .. Len(S) + 1
\* before phase k, S_k .. S_N are orthogonal to every emitted cycle
Orthogonal == \A i \in DOMAIN S : i >= k => \A j \in DOMAIN cycles : ~Odd(S[i], cycles[j])
\* and still independent, so the phase has an odd cycle to find
SupportIndependent == Rank(FoldLeft(LAMBDA b, s : Insert(b, s), EmptyBasis, S)) = Len(S)
CycleExists == pc \in {"swap", "cycle"} => \A i \in k .. Len(S) : OddCycles(S[i]) # {}
Optimal == pc = "done" => total = SeqSum(MinBasisWeights(G))
Terminates == <>(pc = "done")

\* refinement: the caller sees a CycleBasis
CB == INSTANCE CycleBasis WITH
        Aspects <- {"cycle", "independent", "complete", "sum", "optimum", "list"},
        g <- IF pc = "start" THEN [n |-> 0, E |-> << >>] ELSE G,
        opt <- IF pc = "start" THEN << >> ELSE MinBasisWeights(G),
        dim <- IF pc = "start" THEN 0 ELSE CycleSpaceDim(G),
        call <- [alg |-> "none", k |-> 0],
        basis <- FoldLeft(LAMBDA b, s : Insert(b, s), EmptyBasis, cycles),
        weights <- [i \in DOMAIN cycles |-> WeightOf(G, cycles[i])]
\* Emit steps of the refinement, and the final Return
EmitSteps == [][cycles' # cycles =>
                  CB!EmitOK(SetToSeq(cycles'[Len(cycles')]))]_svars
ReturnStep == pc = "done" => CB!ReturnOK(total, TRUE, TRUE)
=============================================================================
