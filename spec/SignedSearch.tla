---------------------------- MODULE SignedSearch ----------------------------
(***************************************************************************)
(* bidirectional_signed_dijkstra (detail/signed_dijkstra.hpp): two searches *)
(* in the signed graph that take turns, one vertex at a time; any vertex of *)
(* least distance may be scanned.  The answer is the best meeting seen when *)
(* the two least distances together reach it.                               *)
(* Variant "first" stops at the first meeting, which is wrong, and TLC      *)
(* shows it.                                                                *)
(***************************************************************************)
EXTENDS SignedGraph
CONSTANTS N, W, Mode, Limits, Variant

VARIABLES G, S, H, e, lim,     \* the question
          src,                 \* source node of each side
          d, p, q,             \* per side: distances, predecessor edges, queue
          turn, best, meet,
          pc, found, C, w      \* the answer
vars == <<G, S, H, e, lim, src, d, p, q, turn, best, meet, pc, found, C, w>>

Pairs == SetToSeq({x \in (0 .. N-1) \X (0 .. N-1) : x[1] < x[2]})
GraphFrom(f) == [n |-> N, E |-> FoldLeft(LAMBDA acc, i : IF f[i] = 0 THEN acc
                     ELSE Append(acc, <<Pairs[i][1], Pairs[i][2], f[i]>>), << >>, [i \in 1 .. Len(Pairs) |-> i])]
\* all labelled graphs are there, so the vertex is 0 and the edge is the first one, without loss
Init == /\ \E f \in [1 .. Len(Pairs) -> 0 .. W] : G = GraphFrom(f)
        /\ S \in SUBSET Edges(G)
        /\ lim \in Limits
        /\ IF Mode = "v" THEN H = {} /\ e = 0 /\ src = <<0, N>>
           ELSE /\ H \in SUBSET S /\ 1 \in H /\ e = 1 /\ Src(G, 1) = 0 /\ Tgt(G, 1) = 1 /\ src = <<0, 1>>
        /\ d = [i \in {1, 2} |-> [a \in 0 .. 2 * N - 1 |-> IF a = src[i] THEN 0 ELSE INF]]
        /\ p = [i \in {1, 2} |-> [a \in 0 .. 2 * N - 1 |-> 0]]
        /\ q = [i \in {1, 2} |-> {src[i]}]
        /\ turn = 1 /\ best = INF /\ meet = 0 /\ pc = "scan" /\ found = FALSE /\ C = {} /\ w = 0

Least(i) == Min({d[i][a] : a \in q[i]})
Stop == \/ q[1] = {} \/ q[2] = {}
        \/ best # INF /\ (Variant = "first" \/ Least(1) + Least(2) >= best)

Scan == /\ pc = "scan" /\ ~Stop
        /\ \E a \in q[turn] :
             /\ d[turn][a] = Least(turn)
             /\ IF lim # 0 /\ d[turn][a] >= lim
                THEN pc' = "done" /\ UNCHANGED <<d, p, q, turn, best, meet>>
                ELSE LET o == 3 - turn
                         step(st, f) ==
                            LET b == Across(G, S, f, a)
                                c == d[turn][a] + Wt(G, f)
                            IN  IF lim # 0 /\ c >= lim THEN st
                                ELSE LET better == b # src[turn] /\ c < st.d[b]
                                         first == better /\ st.d[b] = INF
                                         s2 == IF better THEN [st EXCEPT !.d[b] = c, !.p[b] = f, !.q = IF first THEN @ \cup {b} ELSE @] ELSE st
                                     IN  IF d[o][b] # INF /\ c + d[o][b] < s2.best
                                         THEN [s2 EXCEPT !.best = c + d[o][b], !.meet = b] ELSE s2
                         out == SetToSortSeq(Incident(G, Plain(G, a)) \ H, LAMBDA x, y : x < y)
                         st == FoldLeft(step, [d |-> d[turn], p |-> p[turn], q |-> q[turn] \ {a}, best |-> best, meet |-> meet], out)
                     IN  /\ d' = [d EXCEPT ![turn] = st.d]
                         /\ p' = [p EXCEPT ![turn] = st.p]
                         /\ q' = [q EXCEPT ![turn] = st.q]
                         /\ best' = st.best /\ meet' = st.meet
                         /\ turn' = o /\ UNCHANGED pc
        /\ UNCHANGED <<G, S, H, e, lim, src, found, C, w>>

\* the edges back to the source, in order
RECURSIVE Back(_, _)
Back(i, a) == IF a = src[i] THEN << >> ELSE <<p[i][a]>> \o Back(i, Across(G, S, p[i][a], a))
Finish == /\ pc = "scan" /\ Stop
          /\ pc' = "done"
          /\ IF best = INF \/ (lim # 0 /\ best >= lim) THEN UNCHANGED <<found, C, w>>
             ELSE LET path == Back(1, meet) \o Back(2, meet) IN
                  IF Cardinality(ToSet(path)) < Len(path) THEN UNCHANGED <<found, C, w>>
                  ELSE found' = TRUE /\ C' = ToSet(path) /\ w' = FoldLeft(LAMBDA x, f : x + Wt(G, f), 0, path)
          /\ UNCHANGED <<G, S, H, e, lim, src, d, p, q, turn, best, meet>>

Next == Scan \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

D == SignedDist(G, S, H, src[1])[src[2]]
\* a scanned node has its distance, as long as it is below the limit
Settled == \A i \in {1, 2} : LET t == SignedDist(G, S, H, src[i]) IN
             \A a \in 0 .. 2 * N - 1 : d[i][a] # INF /\ a \notin q[i] => d[i][a] = t[a]
Answered == pc = "done" => Answer(G, S, H, Mode, e, src[1], src[2], lim, D, MinOddWeight(G, S), found, C, w)
Meets == pc = "done" => Lightest(G, S, Mode, e, lim, D, MinOddWeight(G, S), found, C)
\* the lightest odd closed walk is an odd cycle
Walks == pc = "done" => MinOddWeight(G, S) =
             Min({INF} \cup {WeightOf(G, K) : K \in {K \in AllSimpleCycles(G) : OddIn(K, S)}})
Terminates == <>(pc = "done")
=============================================================================
