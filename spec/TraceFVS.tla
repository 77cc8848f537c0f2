------------------------------- MODULE TraceFVS -------------------------------
EXTENDS FVS, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
tvars == <<tid, l>>
T == Traces[tid]
TInit == tid \in DOMAIN Traces /\ l = 1
TStep == /\ l <= Len(T.ev) /\ T.ev[l].op = "FVS" /\ FVSOK([n |-> T.n, E |-> T.E], T.ev[l].s)
         /\ l' = l + 1 /\ UNCHANGED tid
TDone == l > Len(T.ev) /\ UNCHANGED tvars
TSpec == TInit /\ [][TStep \/ TDone]_tvars
=============================================================================
