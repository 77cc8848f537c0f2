-------------------------------- MODULE MpiMcb --------------------------------
(***************************************************************************)
(* The MPI versions of the support vector algorithm on P processes          *)
(* (mpi/parmcb_sva_signed.hpp and mpi/parmcb_sva_trees.hpp).                *)
(*                                                                          *)
(* Every process has its own copy of the support vectors and its own view   *)
(* of the order of the edges (order[p]: for a container ordered by pointer  *)
(* values that is a permutation nobody controls).  Processes run            *)
(* asynchronously and meet in collectives; a collective happens when every  *)
(* process has arrived at the same one.                                     *)
(*                                                                          *)
(* Variant  "signed"   the search space is the set of signed edges: edge e  *)
(*                     stands for the odd cycles through e that use no      *)
(*                     signed edge after e; sliced by position              *)
(*          "trees"    rank 0 scatters Horton candidates                    *)
(* Agreed   all processes derive order from the forest index (what the code *)
(*          does); FALSE: from their own memory layout                      *)
(***************************************************************************)
EXTENDS Graphs
CONSTANTS N, W, P, Variant, Agreed

Ranks == 0 .. P - 1
VARIABLES G, offs, order, cand, S, k, pc, local, best, cycles, total
mvars == <<G, offs, order, cand, S, k, pc, local, best, cycles, total>>

Pairs == SetToSeq({p \in (0 .. N-1) \X (0 .. N-1) : p[1] < p[2]})
GraphFrom(f) == [n |-> N, E |-> FoldLeft(LAMBDA acc, i : IF f[i] = 0 THEN acc
                     ELSE Append(acc, <<Pairs[i][1], Pairs[i][2], f[i]>>), << >>, [i \in 1 .. Len(Pairs) |-> i])]
ForestOf(g) == FoldLeft(LAMBDA F, e : IF IsAcyclic(g, F \cup {e}) THEN F \cup {e} ELSE F, {}, [e \in Edges(g) |-> e])
Odd(a, b) == Cardinality(a \cap b) % 2 = 1
None == {}

\* ceil-stride slices of 1 .. t
Stride(t) == (t + P - 1) \div P
Slice(p, t) == {i \in 1 .. t : i > p * Stride(t) /\ i <= (p + 1) * Stride(t)}

Orders(g) == LET off == SetToSeq(Edges(g) \ ForestOf(g)) rest == SetToSeq(ForestOf(g))
             IN IF Agreed THEN {off \o rest}
                \* two layouts are enough to disagree: forwards and backwards
                ELSE {off \o rest, Reverse(off \o rest)}

Init == /\ \E f \in [1 .. Len(Pairs) -> 0 .. W] : G = GraphFrom(f)
        /\ CycleSpaceDim(G) > 0
        /\ offs = SetToSeq(Edges(G) \ ForestOf(G))
        /\ order \in [Ranks -> Orders(G)]
        /\ cand = [p \in Ranks |-> {}]
        /\ S = [p \in Ranks |-> [i \in 1 .. CycleSpaceDim(G) |-> {offs[i]}]]
        /\ k = [p \in Ranks |-> 1]
        /\ pc = [p \in Ranks |-> IF Variant = "trees" THEN "scatter" ELSE "bcast"]
        /\ local = [p \in Ranks |-> None] /\ best = None /\ cycles = << >> /\ total = 0

All(c) == \A p \in Ranks : pc[p] = c

\* the simple cycles that are a shortest path tree plus one edge would do; all simple cycles are a superset
Candidates == SetToSeq(AllSimpleCycles(G))
Scatter == /\ All("scatter")
           /\ cand' = [p \in Ranks |-> {Candidates[i] : i \in Slice(p, Len(Candidates))}]
           /\ pc' = [p \in Ranks |-> "bcast"]
           /\ UNCHANGED <<G, offs, order, S, k, local, best, cycles, total>>

Bcast == /\ All("bcast")
         /\ S' = [p \in Ranks |-> [S[p] EXCEPT ![k[p]] = S[0][k[0]]]]
         /\ pc' = [p \in Ranks |-> "search"]
         /\ UNCHANGED <<G, offs, order, cand, k, local, best, cycles, total>>

\* signed edges in the order of p, the last of them in a cycle
SignedSeq(p) == SelectSeq(order[p], LAMBDA e : e \in S[p][k[p]])
LastIn(p, C) == LET q == SignedSeq(p) IN Max({i \in DOMAIN q : q[i] \in C})
Space(p) == LET s == S[p][k[p]] IN
            IF Variant = "trees" THEN {C \in cand[p] : Odd(C, s)}
            ELSE {C \in AllSimpleCycles(G) : Odd(C, s) /\ LastIn(p, C) \in Slice(p, Cardinality(s))}
Light(X) == LET m == Min({WeightOf(G, C) : C \in X}) IN {C \in X : WeightOf(G, C) = m}

\* a process on its own
Search(p) == /\ pc[p] = "search"
             /\ pc' = [pc EXCEPT ![p] = "reduce"]
             /\ \/ Space(p) = {} /\ local' = [local EXCEPT ![p] = None]
                \/ Space(p) # {} /\ \E C \in Light(Space(p)) : local' = [local EXCEPT ![p] = C]
             /\ UNCHANGED <<G, offs, order, cand, S, k, best, cycles, total>>

\* the reduction combines the local minima in any order: any lightest one may win
ReduceMin == /\ All("reduce")
          /\ LET X == {local[p] : p \in Ranks} \ {None} IN
             best' \in (IF X = {} THEN {None} ELSE Light(X))
          /\ pc' = [p \in Ranks |-> IF p = 0 THEN "update" ELSE IF k[p] = Len(S[p]) THEN "done" ELSE "bcast"]
          /\ k' = [p \in Ranks |-> IF p = 0 THEN k[0] ELSE k[p] + 1]
          /\ UNCHANGED <<G, offs, order, cand, S, local, cycles, total>>

Update == /\ pc[0] = "update"
          /\ S' = [S EXCEPT ![0] = [l \in DOMAIN S[0] |-> IF l > k[0] /\ Odd(best, S[0][l]) THEN SymDiff(S[0][l], S[0][k[0]]) ELSE S[0][l]]]
          /\ cycles' = Append(cycles, best) /\ total' = total + WeightOf(G, best)
          /\ k' = [k EXCEPT ![0] = @ + 1]
          /\ pc' = [pc EXCEPT ![0] = IF k[0] = Len(S[0]) THEN "done" ELSE "bcast"]
          /\ UNCHANGED <<G, offs, order, cand, local, best>>

Next == Scatter \/ Bcast \/ (\E p \in Ranks : Search(p)) \/ ReduceMin \/ Update \/ (All("done") /\ UNCHANGED mvars)
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)

\* ------------------------------------------------------------- properties
\* deadlock freedom is TLC's deadlock check: only All("done") stutters
Covered == \A t \in 0 .. 12 : UNION {Slice(p, t) : p \in Ranks} = 1 .. t
Found == All("reduce") =>
            LET s == S[0][k[0]] X == {C \in AllSimpleCycles(G) : Odd(C, s)}
            IN \E p \in Ranks : local[p] # None /\ local[p] \in Light(X)
Optimal == All("done") => Len(cycles) = CycleSpaceDim(G) /\ total = SeqSum(MinBasisWeights(G))
Together == \A p, q \in Ranks : k[p] - k[q] \in -1 .. 1
Terminates == <>All("done")
=============================================================================
