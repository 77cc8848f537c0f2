----------------------------- MODULE CycleBasis -----------------------------
(***************************************************************************)
(* What a cycle basis entry point may do, as seen by its caller.  A call    *)
(* writes cycles to the output iterator one after the other (Emit) and then *)
(* returns a weight (Return), or rejects its parameters (Throw).            *)
(*                                                                          *)
(* Every entry point of the library, exact or approximate, sequential,      *)
(* TBB or MPI, on double or int weights, is bound to these actions.         *)
(*                                                                          *)
(* Aspects selects which clauses of the contract a configuration enforces,  *)
(* so that each property is decided by exactly the clauses it states:       *)
(*   "cycle"        emitted lists are duplicate-free simple cycles          *)
(*   "independent"  emitted cycles are independent over GF(2)               *)
(*   "complete"     exactly CycleSpaceDim cycles have been emitted          *)
(*   "sum"          the returned weight is the weight of the emitted cycles *)
(*   "optimum"      that weight is the minimum over all cycle bases         *)
(*   "list"         so is the sorted list of the cycle weights              *)
(*   "bound"        it is at most (2k-1) times the minimum                  *)
(*   "reject"       k = 0 (and nothing else) is rejected, nothing emitted   *)
(*   "maps"         emitted descriptors give the same weight in the         *)
(*                  caller's weight map after the call                      *)
(*   "approxsum"    weights are compared up to 1e-9 (inexact doubles)       *)
(***************************************************************************)
EXTENDS Graphs

CONSTANT Aspects

VARIABLES g,        \* the input graph
          opt,      \* weights of the cycles of a minimum basis, ascending
          dim,      \* dimension of its cycle space
          call,     \* the call in progress
          basis,    \* span of the cycles emitted by this call
          weights   \* weights of the cycles emitted by this call, in order

cbvars == <<g, opt, dim, call, basis, weights>>

NoGraph == [n |-> 0, E |-> << >>]
Idle == [alg |-> "none", k |-> 0]
Has(a) == a \in Aspects
NeedsOptimum == Aspects \cap {"optimum", "list", "bound"} # {}
OptOf(G) == IF NeedsOptimum THEN MinBasisWeights(G) ELSE << >>

CBInit == /\ g = NoGraph /\ opt = << >> /\ dim = 0
          /\ call = Idle /\ basis = EmptyBasis /\ weights = << >>

Load(G) == /\ call = Idle
           /\ g' = G /\ opt' = OptOf(G) /\ dim' = CycleSpaceDim(G)
           /\ UNCHANGED <<call, basis, weights>>

Call(a, k) == /\ call = Idle
              /\ call' = [alg |-> a, k |-> k]
              /\ basis' = EmptyBasis /\ weights' = << >>
              /\ UNCHANGED <<g, opt, dim>>

\* s is the list of edges as written to the output iterator
EmitOK(s) ==
    /\ \A i \in DOMAIN s : s[i] \in Edges(g)
    /\ Has("cycle") => Len(s) = Cardinality(ToSet(s)) /\ IsSimpleCycle(g, ToSet(s))
    /\ Has("complete") => Len(weights) < dim
    /\ Has("independent") => IsIndependent(basis, ToSet(s))

Emit(s) == /\ call # Idle
           /\ EmitOK(s)
           /\ basis' = IF Has("independent") THEN Insert(basis, ToSet(s)) ELSE basis
           /\ weights' = Append(weights, FoldLeft(LAMBDA a, e : a + Wt(g, e), 0, s))
           /\ UNCHANGED <<g, opt, dim, call>>

Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)

\* exact: the double is that number exactly; near: up to 1e-9 relative
ReturnOK(w, exact, near) ==
    LET total == SeqSum(weights) IN
    /\ Has("complete") => Len(weights) = dim
    /\ Has("sum") => w = total /\ (IF Has("approxsum") THEN near ELSE exact)
    /\ Has("optimum") => total = SeqSum(opt)
    /\ Has("list") => Sorted(weights) = opt
    /\ Has("bound") => IF call.k = 1 THEN total = SeqSum(opt)
                       ELSE call.k \in 2 .. 50 => \* total <= (2k-1) * opt, without the product
                            (total + 2 * call.k - 2) \div (2 * call.k - 1) <= SeqSum(opt)
    \* a basis is needed for its weight to mean anything
    /\ Has("bound") => Len(weights) = dim
    /\ Has("reject") => call.k # 0

Return(w, exact, near) == /\ call # Idle
                          /\ ReturnOK(w, exact, near)
                          /\ call' = Idle
                          /\ UNCHANGED <<g, opt, dim, basis, weights>>

Throw == /\ call # Idle
         /\ Has("reject") /\ call.k = 0 /\ weights = << >>
         /\ call' = Idle
         /\ UNCHANGED <<g, opt, dim, basis, weights>>
=============================================================================
