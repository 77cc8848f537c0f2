---------------------------- MODULE MC_ForestIndex ----------------------------
(* The construction: a queue based search over every component, then the two-  *)
(* counter numbering, on every labelled graph with N vertices, every start     *)
(* order of components and every order in which neighbours are visited.        *)
EXTENDS ForestIndex
CONSTANTS N
VARIABLES G, visited, queue, forest, comps, idx, low, high, pos, pc
fvars == <<G, visited, queue, forest, comps, idx, low, high, pos, pc>>
Pairs == SetToSeq({p \in (0 .. N-1) \X (0 .. N-1) : p[1] < p[2]})
GraphFrom(f) == [n |-> N, E |-> FoldLeft(LAMBDA acc, i : IF f[i] = 0 THEN acc
                     ELSE Append(acc, <<Pairs[i][1], Pairs[i][2], 1>>), << >>, [i \in 1 .. Len(Pairs) |-> i])]
Init == /\ \E f \in [1 .. Len(Pairs) -> 0 .. 1] : G = GraphFrom(f)
        /\ visited = {} /\ queue = << >> /\ forest = {} /\ comps = 0
        /\ idx = << >> /\ low = 0 /\ high = 0 /\ pos = 1 /\ pc = "search"
NewComponent == /\ pc = "search" /\ queue = << >> /\ visited # Vertices(G)
                /\ \E v \in Vertices(G) \ visited : visited' = visited \cup {v} /\ queue' = <<v>>
                /\ comps' = comps + 1
                /\ UNCHANGED <<G, forest, idx, low, high, pos, pc>>
Visit == /\ pc = "search" /\ queue # << >>
         /\ LET u == Head(queue)
                es == {e \in Incident(G, u) : Other(G, e, u) \notin visited}
            IN \/ es = {} /\ queue' = Tail(queue) /\ UNCHANGED <<visited, forest>>
               \/ \E e \in es : /\ forest' = forest \cup {e}
                                /\ visited' = visited \cup {Other(G, e, u)}
                                /\ queue' = Append(queue, Other(G, e, u))
         /\ UNCHANGED <<G, comps, idx, low, high, pos, pc>>
Searched == /\ pc = "search" /\ queue = << >> /\ visited = Vertices(G)
            /\ pc' = "number" /\ low' = 0 /\ high' = Len(G.E) - N + comps
            /\ UNCHANGED <<G, visited, queue, forest, comps, idx, pos>>
Number == /\ pc = "number" /\ pos <= Len(G.E)
          /\ IF pos \in forest THEN idx' = Append(idx, high) /\ high' = high + 1 /\ UNCHANGED low
                               ELSE idx' = Append(idx, low) /\ low' = low + 1 /\ UNCHANGED high
          /\ pos' = pos + 1
          /\ UNCHANGED <<G, visited, queue, forest, comps, pc>>
Next == NewComponent \/ Visit \/ Searched \/ Number
Spec == Init /\ [][Next]_fvars
Done == pc = "number" /\ pos > Len(G.E)
ForestInv == IsAcyclic(G, forest)
Numbered == Done =>
    IndexOK(G, idx, [i \in 1 .. Len(idx) |-> CHOOSE e \in DOMAIN idx : idx[e] = i - 1],
            [e \in DOMAIN idx |-> IF e \in forest THEN 1 ELSE 0], Len(G.E) - N + comps, comps)
NoOverlap == pc = "number" => low <= Len(G.E) - N + comps
=============================================================================
