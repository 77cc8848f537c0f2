------------------------- MODULE TraceSignedSearch -------------------------
(* Recorded searches of the real bidirectional_signed_dijkstra, in the two   *)
(* ways the algorithms search, with the limits they pass.                    *)
EXTENDS SignedGraph, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, S, M
tvars == <<tid, l, S, M>>

T == Traces[tid]
GG == [n |-> T.n, E |-> T.E]
IsEvent(op) == l <= Len(T.ev) /\ T.ev[l].op = op /\ l' = l + 1 /\ UNCHANGED tid

TInit == tid \in DOMAIN Traces /\ l = 1 /\ S = {} /\ M = INF

\* a support vector
TSigned == /\ IsEvent("Signed")
           /\ S' = ToSet(T.ev[l].S)
           /\ M' = MinOddWeight(GG, S')
\* one search; H hides, lim = 0: no limit
TSearch == /\ IsEvent("Search")
           /\ LET v == T.ev[l]
                  H == ToSet(v.H)
                  a == IF v.mode = "v" THEN v.v ELSE Src(GG, v.e)
                  b == IF v.mode = "v" THEN v.v + GG.n ELSE Tgt(GG, v.e)
                  d == SignedDist(GG, S, H, a)[b]
                  C == ToSet(v.c)
              IN  /\ v.f = 1 => v.x = 1 /\ Len(v.c) = Cardinality(C) /\ 0 \notin C
                  /\ Answer(GG, S, H, v.mode, v.e, a, b, v.lim, d, M, v.f = 1, C, v.w)
                  /\ Lightest(GG, S, v.mode, v.e, v.lim, d, M, v.f = 1, C)
           /\ UNCHANGED <<S, M>>
\* a whole phase as the algorithm does it: the lightest odd cycle, if there is one
TPhase == /\ IsEvent("Phase")
          /\ LET v == T.ev[l] IN
             IF M = INF THEN v.f = 0
             ELSE v.f = 1 /\ v.w = M /\ v.x = 1 /\ IsSimpleCycle(GG, ToSet(v.c)) /\ OddIn(ToSet(v.c), S) /\ WeightOf(GG, ToSet(v.c)) = M
          /\ UNCHANGED <<S, M>>
TDone == l > Len(T.ev) /\ UNCHANGED tvars
TNext == TSigned \/ TSearch \/ TPhase \/ TDone
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
