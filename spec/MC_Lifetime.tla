----------------------------- MODULE MC_Lifetime -----------------------------
(***************************************************************************)
(* The ownership design of an approximate entry point (approx_spanner.hpp)  *)
(* as a client of Lifetime: the caller has a graph of E edges (one object   *)
(* per edge); the call builds a spanner, a graph of its own, runs an exact  *)
(* algorithm on it, which hands cycles of spanner edges to an inner         *)
(* iterator, translates them (Translate), writes them to the caller's       *)
(* iterator, and destroys the spanner; then it emits cycles for the edges   *)
(* outside the spanner.  The exact algorithm owns shared tree nodes.        *)
(*                                                                          *)
(* Result: cycle list nodes (owned by the caller after Return), each with   *)
(* the object its descriptor refers to.                                     *)
(* Controls: Translate = FALSE (descriptors of the spanner handed out),     *)
(* Release = FALSE (the spanner survives the call): both must be caught.    *)
(***************************************************************************)
EXTENDS Lifetime, Sequences, TLC
CONSTANTS E, Translate, Release
VARIABLES pc, own, span, trees, refs, nodes, viewed
vars == <<live, mark, next, phase, pc, own, span, trees, refs, nodes, viewed>>
\* own: caller's edge objects; span: edge of the caller -> object in the spanner (0: not there); nodes: node -> object referred to
Init == LInit /\ pc = "build" /\ own = << >> /\ span = << >> /\ trees = {} /\ refs = {} /\ nodes = {} /\ viewed = {}
U1 == <<span, trees, refs, nodes, viewed>>
Build == pc = "build" /\ Len(own) < E /\ Alloc(next) /\ own' = Append(own, next) /\ UNCHANGED <<pc, span, trees, refs, nodes, viewed>>
Call == pc = "build" /\ Len(own) = E /\ Enter /\ pc' = "spanner" /\ UNCHANGED <<own, span, trees, refs, nodes, viewed>>
Spanner == /\ pc = "spanner" /\ Len(span) < E
           /\ \/ Alloc(next) /\ span' = Append(span, next)
              \/ span' = Append(span, 0) /\ UNCHANGED lvars
           /\ UNCHANGED <<pc, own, trees, refs, nodes, viewed>>
Exact == pc = "spanner" /\ Len(span) = E /\ pc' = "exact" /\ UNCHANGED lvars /\ UNCHANGED <<own, span, trees, refs, nodes, viewed>>
\* shared_ptr-owned tree nodes
Grow == pc = "exact" /\ Cardinality(trees) < 2 /\ Alloc(next) /\ trees' = trees \cup {next} /\ UNCHANGED <<pc, own, span, refs, nodes, viewed>>
Shrink == pc = "exact" /\ \E o \in trees : Free(o) /\ trees' = trees \ {o} /\ UNCHANGED <<pc, own, span, refs, nodes, viewed>>
\* one descriptor written to the caller's iterator while the spanner is alive
Emit == /\ pc = "exact" /\ Cardinality(nodes) < 2
        /\ \E i \in 1 .. E : span[i] # 0 /\ Alloc(next) /\ nodes' = nodes \cup {<<next, IF Translate THEN own[i] ELSE span[i]>>}
        /\ UNCHANGED <<pc, own, span, trees, refs, viewed>>
Exacted == pc = "exact" /\ trees = {} /\ pc' = "outside" /\ UNCHANGED lvars /\ UNCHANGED <<own, span, trees, refs, nodes, viewed>>
EmitOutside == /\ pc = "outside" /\ Cardinality(nodes) < 3
               /\ \E i \in 1 .. E : span[i] = 0 /\ Alloc(next) /\ nodes' = nodes \cup {<<next, own[i]>>}
               /\ UNCHANGED <<pc, own, span, trees, refs, viewed>>
Destroy == /\ pc = "outside" /\ Release
           /\ \E i \in 1 .. E : span[i] # 0 /\ span[i] \in live /\ Free(span[i])
           /\ UNCHANGED <<pc, own, span, trees, refs, nodes, viewed>>
Spanners == {span[i] : i \in DOMAIN span} \ {0}
Back == /\ pc = "outside" /\ (Release => Spanners \cap live = {}) /\ Return
        /\ pc' = "use" /\ UNCHANGED <<own, span, trees, refs, nodes, viewed>>
\* the caller dereferences every descriptor, then drops the result
View == pc = "use" /\ (\E x \in nodes \ viewed : Handed(x[2]) /\ viewed' = viewed \cup {x}) /\ UNCHANGED <<pc, own, span, trees, refs, nodes>>
Drop == pc \in {"use", "drop"} /\ viewed \subseteq nodes /\ (pc = "drop" \/ viewed = nodes)
        /\ (\E x \in nodes : Free(x[1]) /\ nodes' = nodes \ {x} /\ viewed' = viewed \ {x}) /\ pc' = "drop" /\ UNCHANGED <<own, span, trees, refs>>
End == pc \in {"use", "drop"} /\ nodes = {} /\ Leave /\ pc' = "build2" /\ UNCHANGED <<own, span, trees, refs, nodes, viewed>>
\* the caller's graph dies last
Finish == pc = "build2" /\ live # {} /\ (\E o \in live : Free(o)) /\ UNCHANGED <<pc, own, span, trees, refs, nodes, viewed>>
Stop == pc = "build2" /\ live = {} /\ UNCHANGED vars
Next == Build \/ Call \/ Spanner \/ Exact \/ Grow \/ Shrink \/ Emit \/ Exacted \/ EmitOutside \/ Destroy \/ Back \/ View \/ Drop \/ End \/ Finish \/ Stop
Bound == next <= 3 * E + 5
Spec == Init /\ [][Next]_vars
\* what the steps of Lifetime ask for never gets in the way of this design: no deadlock, and
NoDangling == pc \in {"use", "drop"} => \A x \in nodes : x[2] \in live
=============================================================================
