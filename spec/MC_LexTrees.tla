------------------------------ MODULE MC_LexTrees ------------------------------
(* lex_dijkstra as a state machine: labels (distance, edge count, vertex set)    *)
(* compared as in LexDistanceCompare, one root after the other, on every graph   *)
(* of N vertices with weights 1..W.  Pops among equal labels (there are none     *)
(* if the order is total on paths) and the scan order of a vertex are free.      *)
EXTENDS LexTrees
CONSTANTS N, W
VARIABLES G, root, label, pred, queue, trees, pc
lvars == <<G, root, label, pred, queue, trees, pc>>
Pairs == SetToSeq({p \in (0 .. N-1) \X (0 .. N-1) : p[1] < p[2]})
GraphFrom(f) == [n |-> N, E |-> FoldLeft(LAMBDA acc, i : IF f[i] = 0 THEN acc
                     ELSE Append(acc, <<Pairs[i][1], Pairs[i][2], f[i]>>), << >>, [i \in 1 .. Len(Pairs) |-> i])]

Less(a, b) ==
    \/ a.d < b.d
    \/ a.d = b.d /\ a.k < b.k
    \/ a.d = b.d /\ a.k = b.k /\
         LET na == a.vs \ b.vs  nb == b.vs \ a.vs IN
         \/ na = {} /\ nb # {}
         \/ na # {} /\ nb # {} /\ Min(na) < Min(nb)

Fresh(r) == (r :> [d |-> 0, k |-> 0, vs |-> {r}])
Init == /\ \E f \in [1 .. Len(Pairs) -> 0 .. W] : G = GraphFrom(f)
        /\ root = 0 /\ label = Fresh(0) /\ pred = << >> /\ queue = {0} /\ trees = << >> /\ pc = "run"

Combine(a, e) == [d |-> a.d + Wt(G, e), k |-> a.k + 1, vs |-> a.vs \cup Ends(G, e)]
\* pop u and relax all its edges
Pop == /\ pc = "run" /\ queue # {}
       /\ \E u \in {x \in queue : \A y \in queue : ~Less(label[y], label[x])} :
            LET upd == {w \in Vertices(G) \ {root} :
                          \E e \in Incident(G, u) : Other(G, e, u) = w /\
                            (w \notin DOMAIN pred \/ Less(Combine(label[u], e), label[w]))}
                edge(w) == CHOOSE e \in Incident(G, u) : Other(G, e, u) = w
            IN /\ label' = [w \in upd |-> Combine(label[u], edge(w))] @@ label
               /\ pred' = [w \in upd |-> edge(w)] @@ pred
               /\ queue' = (queue \ {u}) \cup {w \in upd : w \notin DOMAIN pred \/ w \in queue}
       /\ UNCHANGED <<G, root, trees, pc>>
RECURSIVE FirstOf(_, _, _)
FirstOf(p, r, v) == LET u == Other(G, p[v], v) IN IF u = r THEN v ELSE FirstOf(p, r, u)
Finish == /\ pc = "run" /\ queue = {}
          /\ trees' = Append(trees, [v \in DOMAIN pred \cup {root} |->
                         IF v = root THEN [w |-> 0, pred |-> 0, first |-> v]
                         ELSE [w |-> label[v].d, pred |-> pred[v], first |-> FirstOf(pred, root, v)]])
          /\ IF root = N - 1 THEN pc' = "done" /\ UNCHANGED <<root, label, pred, queue>>
             ELSE root' = root + 1 /\ label' = Fresh(root + 1) /\ pred' = << >> /\ queue' = {root + 1} /\ UNCHANGED pc
          /\ UNCHANGED G
Next == Pop \/ Finish
Spec == Init /\ [][Next]_lvars
Exact == pc = "done" => LET D == Dist(G) IN \A r \in Vertices(G) : TreeOK(G, D, r, trees[r + 1])
Paths == LET D == Dist(G) IN [r \in Vertices(G) |-> TreePaths(G, D, r, trees[r + 1])]
Consistent == pc = "done" =>
    LET P == Paths IN /\ \A r \in Vertices(G) : ConsistentWith(P, r, P[r])
                      /\ SubPaths(G, P)
\* a popped vertex is never improved: label setting
Settled == \A v \in DOMAIN label : v \notin queue /\ v # root /\ pc = "run" =>
              \A e \in Incident(G, v) : LET u == Other(G, e, v) IN
                 u \in DOMAIN label /\ u \notin queue => ~Less(Combine(label[u], e), label[v])
=============================================================================
