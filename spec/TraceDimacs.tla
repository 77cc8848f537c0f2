----------------------------- MODULE TraceDimacs -----------------------------
EXTENDS Dimacs, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, st
tvars == <<tid, l, st>>
T == Traces[tid]
Ev == T.ev[l]
TInit == tid \in DOMAIN Traces /\ l = 1 /\ st = Empty
Is(op) == l <= Len(T.ev) /\ Ev.op = op /\ l' = l + 1 /\ UNCHANGED tid
TLine == Is("Line") /\ st' = ReadLine(st, Ev.s)
\* the reader returned: not an error, and this is the graph
TGraph == Is("Graph") /\ ~st.err /\ SameGraph(st, Ev.n, Ev.E) /\ UNCHANGED st
TError == Is("Error") /\ st.err /\ UNCHANGED st
TLoops == Is("Loops") /\ (Ev.r = 1) = HasLoops(T.E) /\ UNCHANGED st
TMulti == Is("Multi") /\ (HasLoops(T.E) \/ (Ev.r = 1) = HasMultiple(T.E)) = TRUE /\ UNCHANGED st
TNonPos == Is("NonPos") /\ (Ev.r = 1) = HasNonPositive(T.E) /\ UNCHANGED st
TDone == l > Len(T.ev) /\ UNCHANGED tvars
TSpec == TInit /\ [][TLine \/ TGraph \/ TError \/ TLoops \/ TMulti \/ TNonPos \/ TDone]_tvars
=============================================================================
