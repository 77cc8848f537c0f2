-------------------------------- MODULE MC_FVS --------------------------------
(* Strip vertices of residual degree at most one, in any order; when none is   *)
(* left move a vertex of maximum residual degree into the set.                 *)
EXTENDS FVS
CONSTANTS N
VARIABLES G, left, out
fvars == <<G, left, out>>
Pairs == SetToSeq({p \in (0 .. N-1) \X (0 .. N-1) : p[1] < p[2]})
GraphFrom(f) == [n |-> N, E |-> FoldLeft(LAMBDA acc, i : IF f[i] = 0 THEN acc
                     ELSE Append(acc, <<Pairs[i][1], Pairs[i][2], 1>>), << >>, [i \in 1 .. Len(Pairs) |-> i])]
Init == /\ \E f \in [1 .. Len(Pairs) -> 0 .. 1] : G = GraphFrom(f)
        /\ left = Vertices(G) /\ out = << >>
Res(x) == Cardinality({e \in Incident(G, x) : Other(G, e, x) \in left})
Strip == \E x \in left : Res(x) <= 1 /\ left' = left \ {x} /\ UNCHANGED <<G, out>>
Pick == /\ left # {} /\ \A x \in left : Res(x) >= 2
        /\ \E x \in left : /\ \A y \in left : Res(y) <= Res(x)
                           /\ left' = left \ {x} /\ out' = Append(out, x)
        /\ UNCHANGED G
Next == Strip \/ Pick
Spec == Init /\ [][Next]_fvars /\ WF_fvars(Next)
Result == left = {} => FVSOK(G, out)
\* cycles of what is gone all meet the set
Progress == IsAcyclic(G, {e \in Without(G, ToSet(out)) : Ends(G, e) \cap left = {}})
Terminates == <>(left = {})
=============================================================================
