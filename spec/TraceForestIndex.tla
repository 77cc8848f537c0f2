--------------------------- MODULE TraceForestIndex ---------------------------
EXTENDS ForestIndex, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, last
tvars == <<tid, l, last>>
T == Traces[tid]
GR == [n |-> T.n, E |-> T.E]
TInit == tid \in DOMAIN Traces /\ l = 1 /\ last = << >>
TIndex == /\ l <= Len(T.ev) /\ T.ev[l].op = "Index"
          /\ IndexOK(GR, T.ev[l].idx, T.ev[l].back, T.ev[l].on, T.ev[l].dim, T.ev[l].comp)
          \* a copy is the same index
          /\ T.ev[l].how # "new" => T.ev[l].idx = last
          /\ last' = T.ev[l].idx /\ l' = l + 1 /\ UNCHANGED tid
TReversed == /\ l <= Len(T.ev) /\ T.ev[l].op = "Reversed" /\ T.ev[l].idx = last
             /\ l' = l + 1 /\ UNCHANGED <<tid, last>>
TDone == l > Len(T.ev) /\ UNCHANGED tvars
TSpec == TInit /\ [][TIndex \/ TReversed \/ TDone]_tvars
=============================================================================
