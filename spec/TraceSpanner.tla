----------------------------- MODULE TraceSpanner -----------------------------
(* Spanners recorded from BaseApproxSpannerAlgorithm, one event per k.          *)
EXTENDS Spanner, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
tvars == <<tid, l>>
T == Traces[tid]
GR == [n |-> T.n, E |-> T.E]
TInit == tid \in DOMAIN Traces /\ l = 0
TLoad == l = 0 /\ l' = 1 /\ UNCHANGED tid
\* kept: sequence of <<input edge, weight in the spanner (scaled, -1 if not exact), end, end in the spanner>>
SpannerStep(e) ==
    LET ids == [i \in DOMAIN e.kept |-> e.kept[i][1]]
        kept == ToSet(ids)
        dropped == ToSet(e.dropped)
    IN  /\ kept \subseteq Edges(GR) /\ dropped \subseteq Edges(GR)
        /\ Cardinality(kept) = Len(ids) /\ Cardinality(dropped) = Len(e.dropped)
        /\ e.nv = GR.n
        \* carries the weights of the input
        /\ \A i \in DOMAIN e.kept : e.kept[i][2] = Wt(GR, ids[i])
        \* is a subgraph: the translation of edges comes from a map of vertices
        /\ \A i, j \in DOMAIN e.kept : i < j =>
             Cardinality({e.kept[i][3], e.kept[i][4]} \cap {e.kept[j][3], e.kept[j][4]})
               = Cardinality(Ends(GR, ids[i]) \cap Ends(GR, ids[j]))
        /\ SpannerOK(GR, e.k, kept, dropped)
TStep == l >= 1 /\ l <= Len(T.ev) /\ T.ev[l].op = "Spanner" /\ SpannerStep(T.ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
TDone == l > Len(T.ev) /\ UNCHANGED tvars
TSpec == TInit /\ [][TLoad \/ TStep \/ TDone]_tvars
=============================================================================
