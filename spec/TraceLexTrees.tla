---------------------------- MODULE TraceLexTrees ----------------------------
(* Trees recorded from SPTree, one event per root.                             *)
EXTENDS LexTrees, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, D, P
tvars == <<tid, l, D, P>>
T == Traces[tid]
GR == [n |-> T.n, E |-> T.E]
TInit == tid \in DOMAIN Traces /\ l = 0 /\ D = << >> /\ P = << >>
TLoad == l = 0 /\ l' = 1 /\ D' = Dist(GR) /\ UNCHANGED <<tid, P>>
\* nodes: <<vertex, weight, pred edge, first>>
TreeFrom(ns) == [v \in {ns[i][1] : i \in DOMAIN ns} |->
                   LET x == ns[CHOOSE i \in DOMAIN ns : ns[i][1] = v] IN [w |-> x[2], pred |-> x[3], first |-> x[4]]]
TTree == /\ l >= 1 /\ l <= Len(T.ev) /\ T.ev[l].op = "Tree"
         /\ LET r == T.ev[l].r
                t == TreeFrom(T.ev[l].nodes)
            IN /\ TreeOK(GR, D, r, t)
               /\ P' = P @@ (r :> TreePaths(GR, D, r, t))
               /\ ConsistentWith(P', r, P'[r])
         /\ l' = l + 1 /\ UNCHANGED <<tid, D>>
TDone == l > Len(T.ev) /\ DOMAIN P = Vertices(GR) /\ UNCHANGED tvars
TSpec == TInit /\ [][TLoad \/ TTree \/ TDone]_tvars
=============================================================================
