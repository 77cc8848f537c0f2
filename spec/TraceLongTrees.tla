---------------------------- MODULE TraceLongTrees ----------------------------
(* Trees of long connected graphs, from some roots.  The recorded distances    *)
(* certify themselves: with 0 at the root and no edge that would shorten a      *)
(* path they are lower bounds, and the predecessor edges realise them.          *)
EXTENDS LexTrees, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, P
tvars == <<tid, l, P>>
T == Traces[tid]
GR == [n |-> T.n, E |-> T.E]
Certified(g, r, t) ==
    /\ t[r].w = 0
    /\ \A e \in Edges(g) : \A v \in Ends(g, e) : t[v].w + Wt(g, e) >= t[Other(g, e, v)].w
    /\ \A v \in Vertices(g) \ {r} :
          /\ t[v].pred \in Edges(g) /\ v \in Ends(g, t[v].pred)
          /\ LET u == Other(g, t[v].pred, v)
             IN t[u].w + Wt(g, t[v].pred) = t[v].w /\ t[v].first = IF u = r THEN v ELSE t[u].first
RECURSIVE PathTo(_, _, _, _)
PathTo(g, r, t, v) == IF v = r THEN {} ELSE {t[v].pred} \cup PathTo(g, r, t, Other(g, t[v].pred, v))
Roots == {T.ev[i].r : i \in {j \in DOMAIN T.ev : T.ev[j].op = "Tree"}}
LInit == tid \in DOMAIN Traces /\ l = 1 /\ P = << >>
LTree == /\ l <= Len(T.ev) /\ T.ev[l].op = "Tree"
         /\ LET r == T.ev[l].r   ns == T.ev[l].nodes
                t == [v \in Vertices(GR) |-> [w |-> ns[v + 1][2], pred |-> ns[v + 1][3], first |-> ns[v + 1][4]]]
            IN /\ Len(ns) = T.n /\ \A i \in DOMAIN ns : ns[i][1] = i - 1
               /\ Certified(GR, r, t)
               /\ P' = P @@ (r :> [v \in Roots |-> PathTo(GR, r, t, v)])
               /\ \A s \in DOMAIN P : P[s][r] = P'[r][s]
               /\ \A s \in DOMAIN P, v \in Roots : s \in Touched(GR, P'[r][v]) => P[s][v] \subseteq P'[r][v]
         /\ l' = l + 1 /\ UNCHANGED tid
LDone == l > Len(T.ev) /\ Cardinality(DOMAIN P) >= 2 /\ UNCHANGED tvars
TSpec == LInit /\ [][LTree \/ LDone]_tvars
=============================================================================
